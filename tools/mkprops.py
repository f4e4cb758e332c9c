#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long texts stay readable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    ss=[x if x.endswith(".") or x.endswith(")") else x+"." for x in statement.split(". ")]
    if len(ss)>3:
        mid="; ".join((x[0].lower() if x[1].islower() or x[1]==" " else x[0])+x[1:].rstrip(".") for x in ss[1:-1])+"."
        mid=mid[0].upper()+mid[1:]
        statement=" ".join([ss[0],mid,ss[-1]])
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
      "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":observe,"hook_needed":hook}})
H="include/caligo/"
p("C01","Threads working on independent objects never disturb each other",
 "Any number of threads may each use their own objects (digests, ciphers, MACs and key derivation, key exchange, RSA keys, base64, certificate parsing and trust decisions on a store nobody modifies) at the same time. Under every interleaving each thread obtains exactly the results it would have obtained running alone.",
 ["schedules","histories"],"every interleaving of 2-4 threads, every mix of operations the threads perform on objects of their own or on shared read-only objects",
 "All existing tests are single threaded, so no interleaving at all is exercised.",
 [H,"src/"],[("all working state lives in the object or on the stack; tables are constant","src/*.cpp, include/caligo/*.h")],["return values of every public operation"],
 [("lookup tables","constant tables shared by all threads","src/base64.cpp, src/crc.cpp, src/md5.cpp, src/sha2.cpp"),("testValues","global test hook read by every random draw","src/random.cpp")])
p("C02","First use of the system trust store is safe under concurrency and failure",
 "However many threads ask for the system trust store at the same moment, and whichever load attempts fail (missing or unreadable bundle, out of memory), every successful request returns the same one store, completely loaded; a failed request raises an exception and leaves nothing behind, so that a later request made when the bundle is readable succeeds. Certificates added after the first successful request stay in the store that every later request returns.",
 ["schedules","fault_sequences","histories"],"every interleaving of 2-4 threads making their first request, every placement of load failures among them, requests after the failures stop",
 "No test touches the trust store; tests are single threaded and inject no failure.",
 ["src/Truststore.cpp",H+"Truststore.h"],[("function-local static, initialised once by the compiler's guard","src/Truststore.cpp Truststore::Instance")],["address, content and decisions of the returned store"],
 [("store","the process-wide store","src/Truststore.cpp")])
p("C03","Random draws are complete, fresh and never predictable",
 "Every element of a buffer passed to the random generator (of 8, 16, 32 or 64 bit elements, of any length including odd ones) and every generated random number or private key is filled with entropy obtained from the operating system for that draw alone, and nothing outside the buffer is written. No two draws ever share entropy: not in different threads under any interleaving, not before and after a fork or restart, not when the entropy source returns partial results or is interrupted. When the source fails the draw fails with an exception; it never yields constant, stale or repeated values.",
 ["schedules","fault_sequences","histories","crash_points"],"every interleaving of drawing threads, every sequence of short, interrupted and failed entropy reads, forks and restarts between draws, every buffer length and element width",
 "The existing tests draw in one thread from a healthy source and only check that ten values differ.",
 [H+"random.h","src/random.cpp",H+"bignum.h",H+"x25519.h"],[("one system entropy read per 64-bit value, retried when short or interrupted","include/caligo/random.h generate_random_value")],["contents of the drawn buffers","exceptions"],
 [("testValues","scripted values used instead of entropy while non-empty, taken from the back","src/random.cpp")])
p("C04","Incremental digests equal the one-shot digest for every history",
 "For MD5, SHA-1, SHA-2, SHA-3 and CRC-32, selected by type or by name, the digest reported after any sequence of additions is the standard digest of the concatenation of everything added so far, however the bytes were split over calls, however long the message grows (beyond 2^32 bytes), however often the digest was read in between and whichever other digest objects, copies or assignments were active. Reading a digest (as bytes or as hexadecimal text) changes nothing and every way of reading it agrees. A name that is not a supported algorithm is refused with an exception.",
 ["histories","inputs"],"every sequence of add / read / copy / assign operations over several live digest objects, every segmentation, every length up to several GiB",
 "Tests use a few fixed strings, mostly added in one call; none reads a digest and continues, copies an object, selects by name, or exceeds a few thousand bytes.",
 ["src/md5.cpp","src/sha1.cpp","src/sha2.cpp","src/sha3.cpp","src/crc.cpp","src/hash.cpp",H+"hash.h",H+"sha2.h"],
 [("partial block kept in the object, bit length appended when padding a copy","src/sha2.cpp add / operator std::array")],["digest bytes, hexadecimal text, hashsize"],
 [("chunk, msglength, w/h/s","partial input block, bytes seen so far, chaining state","include/caligo/sha*.h, md5.h")])
p("C05","ChaCha20 is one continuous key stream however the data is split",
 "A ChaCha20 object turns the bytes passed through it into their exclusive-or with the RFC 8439 key stream for its key and nonce starting at block 1, continuing exactly where the previous call stopped, for every split of the data over calls (including empty ones), any mix of encrypt and decrypt calls, any stream length within the 32-bit block counter and with any number of other ChaCha20 objects or copies in use. Two peers with the same key and nonce therefore recover each other's data however either of them splits it. Keys and nonces of a wrong length are refused with an exception.",
 ["histories","inputs"],"every segmentation on both sides, copies of the object in the middle of a block, streams crossing any block counter value",
 "Tests process two fixed RFC vectors in one call each.",
 [H+"chacha20.h"],[("block buffer with offset; next block generated when exhausted","include/caligo/chacha20.h Encrypt/Decrypt/GenerateBlock")],["transformed bytes"],
 [("buffer, offset, state[12]","current key stream block, position in it, block counter","include/caligo/chacha20.h")])
p("C06","An AES-GCM channel delivers exactly what was sent, or rejects",
 "Two peers that construct AES-128 or AES-256 GCM sessions from the same key and IV form a record channel: the receiver's n-th decryption succeeds if and only if it is given the ciphertext, additional data and tag that the sender's n-th encryption produced, and then yields the sender's n-th plaintext; altered, truncated, extended, dropped, duplicated, reordered, replayed or cross-session records are rejected, and every call, successful or not, advances the position by one. With 12-byte IVs every record equals AES-GCM (NIST SP 800-38D) under the IV exclusive-or'ed with the 64-bit record number as in TLS 1.3, and with IVs of 8 or more than 12 bytes the first record equals AES-GCM; this holds for every message and additional-data length and every record number below 2^64-1.",
 ["histories","fault_sequences","inputs"],"every sequence of sends and of network faults between the peers, every record length and number, both key sizes and all supported IV lengths",
 "Tests and Wycheproof vectors each build a fresh session and process one message; none processes a second record, a reordered or a replayed one.",
 [H+"gcm.h",H+"ghash.h",H+"aes.h","src/aes.cpp",H+"key_iv_pair.h"],[("per-session record counter mixed into the nonce by both directions","include/caligo/gcm.h Encrypt/Decrypt"),("tag over additional data, ciphertext and lengths","include/caligo/gcm.h ghash/calculate_tag")],["ciphertext and tag on the wire","validity flag and plaintext at the receiver"],
 [("message_counter","number of the next record","include/caligo/gcm.h"),("iv","nonce base","include/caligo/gcm.h")])
p("C07","No key stream is ever used twice within a session",
 "Within one AES-GCM, AES-CTR or ChaCha20 session, no block of key stream is used for two different blocks of data, whether in the same record or in different ones, for any number of records, any record lengths and any position of the 64-bit record number. This holds also when individual calls fail because memory runs out and the caller carries on or retries with the same session.",
 ["histories","fault_sequences"],"every sequence of records and lengths in a session, any record number, an allocation failure at any point of any call",
 "Tests use each session for a single message and never make an allocation fail.",
 [H+"gcm.h",H+"ctr.h",H+"chacha20.h"],[("record counter incremented before any output is produced","include/caligo/gcm.h, ctr.h"),("32-bit block counter incremented per block","include/caligo/gcm.h ctr_inc, chacha20.h GenerateBlock")],["ciphertext of known plaintext (key stream)"],
 [("message_counter","number of the next record","include/caligo/gcm.h, include/caligo/ctr.h")])
p("C08","An AES-CTR channel round-trips every message sequence",
 "Two peers that construct AES-CTR sessions from the same key and 16-byte IV recover each other's messages in order, for every sequence of messages of any length. Each message is exclusive-or'ed with the AES encryptions of successive counter blocks, starting one after the IV with the big-endian message number exclusive-or'ed into its bytes 4 to 11 and counting in the last 32 bits; the data is therefore never left unencrypted. Other IV or key lengths are refused with an exception.",
 ["histories","inputs"],"every sequence of message lengths, every IV including counters about to wrap, every message number",
 "There is no test for counter mode at all.",
 [H+"ctr.h",H+"aes.h","src/aes.cpp"],[("key stream generation","include/caligo/ctr.h GenerateKeystream")],["transformed bytes"],
 [("message_counter","number of the next message","include/caligo/ctr.h")])
p("C09","Key agreement: both peers derive the same, standard secrets",
 "Peers that exchange X25519 public values and hash the same handshake transcript derive identical TLS 1.3 handshake, application, finished, exporter, resumption and updated traffic secrets, keys and IVs, equal to RFC 7748, RFC 5869 and RFC 8446 for every supported hash, whatever private keys the entropy source produces and whatever (including non-canonical or low-order) public values the network delivers. If anything the peers saw differs (a corrupted, reordered, replayed or replaced handshake message) their derived keys differ. HMAC and HKDF agree with RFC 2104 and RFC 5869 for every key, salt, info and output length.",
 ["histories","fault_sequences","inputs"],"every entropy outcome, every corruption, replacement, duplication or reordering of the exchanged messages, every hash, every secret and label",
 "Tests check one RFC vector for SHA-256 and a handful of X25519 vectors; no exchange between two parties, no other hash, no update/exporter/resumption secrets.",
 [H+"x25519.h",H+"hkdf.h",H+"sha2.h"],[("Montgomery ladder modulo 2^255-19","include/caligo/x25519.h X25519"),("HMAC, extract-and-expand, labelled derivation","include/caligo/hkdf.h")],["derived secrets, keys and IVs of both peers"],())
p("C10","RSA signatures: genuine ones verify, nothing else does",
 "For every RSA key whose modulus is a whole number of octets and every message, the signature produced by signing (PSS with SHA-256/384/512 and PKCS#1 v1.5 with SHA-256/384/512, through the generic key interface or directly) is exactly as long as the modulus, is accepted by verification with the matching public key and by any RFC 8017 implementation, and signatures produced by such an implementation are accepted. (PKCS#1 v1.5 signing and direct verification cover the DER SEQUENCE whose contents the message is; messages are below 16 MiB.) Signing with a key too small for the scheme fails with an exception. A signature whose bytes, message, key, hash or scheme were altered, or that is not exactly as long as the modulus or not below it, is rejected. Two PSS signatures never use the same salt unless the entropy source repeats itself.",
 ["inputs","fault_sequences","histories"],"every key, message, scheme and salt; every corruption, truncation, extension, swap or replay of signatures in transit; entropy faults while signing",
 "Tests cover a few fixed PSS vectors with SHA-1 mask sizes; no PKCS#1 signature, no generic interface, no negative case.",
 [H+"rsa.h",H+"pkcs1.h",H+"mont.h",H+"bignum.h","src/X509Certificate.cpp"],[("encode, private/public exponentiation, compare with the recomputed encoding","include/caligo/rsa.h")],["signature bytes","verification verdicts"],())
p("C11","A certificate is trusted only through a genuine, timely, complete chain",
 "The trust decision answers yes only if the first certificate is valid at the given time, its name is not already a trusted name, and a chain of supplied certificates leads from it to a certificate in the store in which no supplied issuer is marked as not being a CA and every certificate names the next as issuer, carries a correct RSA signature (PKCS#1 v1.5 with SHA-256/384/512) made by the next one's key and has a validity period inside the next one's. It answers yes whenever such a chain exists and no two different certificates (supplied with valid signatures, or trusted) share a name, in whatever order the chain arrives and whatever duplicated, damaged, unrelated or unparsable certificates are mixed in. Validity dates before 1970 count as 1970. Decisions depend only on the store, the supplied certificates and the time given: nothing learned in one decision (and no earlier failure or clock jump) changes a later one.",
 ["histories","fault_sequences","inputs"],"every hierarchy, every reordering, duplication, loss and corruption of the presented certificates, every clock value and jump, every sequence of decisions and additions to the store",
 "One test parses a single root certificate; verification and trust decisions are not tested at all.",
 ["src/Truststore.cpp","src/X509Certificate.cpp",H+"rsa.h",H+"pkcs1.h"],[("fixed-point search over the supplied certificates in a per-decision map","src/Truststore.cpp trust"),("signature and validity nesting","src/X509Certificate.cpp verify")],["result of the trust decision; names, validity and key of parsed certificates"],
 [("trusted_certs","the trusted certificates by name","include/caligo/Truststore.h")])
p("C12","Loading the trust store from a faulty disk never admits a wrong root",
 "When the bundle can be read, possibly in short or interrupted pieces, the store contains every supported certificate of the bundle, found under its name, and nothing else. A bundle that cannot be opened or that fails with an I/O error at any point while it is read raises an exception. When the file itself is truncated, has a zero-filled tail, is empty, ends before or after the size reported for it, creating the store either raises an exception or yields a store that holds only certificates completely and unmodified contained in the file, and no certificate is ever trusted that the intact file would not make trusted. A certificate of the bundle that is unsupported or has a refused key does not affect the others.",
 ["fault_sequences","inputs","crash_points"],"every bundle composition, every truncation point, every sequence of short reads, interrupts, read and stat errors, every file of a size other than the reported one",
 "The trust store is never created by a test.",
 ["src/Truststore.cpp","src/X509Certificate.cpp","src/base64.cpp"],[("file_size + stream read + PEM split","src/Truststore.cpp Truststore::Truststore, src/X509Certificate.cpp parseCertificatesPem")],["contents of the store","trust decisions made with it"],
 [("trusted_certs","the trusted certificates by name","include/caligo/Truststore.h")])
p("C13","Damaged bytes from disk or network never crash, hang or over-read",
 "Whatever bytes arrive - certificates, certificate bundles, private keys, signatures, ciphertext records, base64 or key exchange values that were truncated, extended, bit-flipped, spliced or are arbitrary - parsing, verifying, decrypting and using them returns or throws a standard exception within work bounded by the input's size, reads and writes nothing outside its buffers, leaks nothing, and never dereferences absent data. Damaged certificates are never reported as trusted. The same bytes always give the same outcome.",
 ["fault_sequences","inputs"],"every truncation, bit flip, length-field edit, splice and extension of valid objects, and arbitrary bytes",
 "Tests only parse intact objects.",
 ["src/X509Certificate.cpp",H+"Asn1.h","src/base64.cpp",H+"rsa.h",H+"gcm.h","src/Truststore.cpp"],[("bounds-checked element reader","include/caligo/Asn1.h asn1_view::read")],["memory accesses (AddressSanitizer), work performed, exceptions, outcome"],())
p("C14","Running out of memory is reported and harms nothing",
 "If any single memory allocation inside an operation fails, the operation fails with the standard out-of-memory exception (or succeeds without that memory), releases everything it had acquired, and leaves all of the caller's objects usable and correct: digests keep exactly the data added before, keys, sessions, stores and certificates give the same answers as before the failure, and repeating the failed operation with memory available gives the result it would have given had it not failed (for cipher sessions: under one of the record numbers not used by a successful call yet, none skipped beyond one per failed call).",
 ["fault_sequences","histories"],"a failure of the k-th allocation of every public operation, for every k, at any point of a history of operations",
 "Tests never make an allocation fail.",
 [H,"src/"],[("value semantics and standard containers; state changed only by operations that cannot fail afterwards","include/caligo/*.h, src/*.cpp")],["exceptions, results of later operations, balance of allocations and releases"],())
p("C15","A complete authenticated session survives a hostile network",
 "Two endpoints that combine the library's parts in the TLS 1.3 manner (key exchange, transcript digest, certificate chain and trust decision, RSA-PSS proof of the server's key, key derivation, AES-GCM records with key update) over a network that loses, duplicates, reorders, delays and corrupts messages and over endpoints that crash and restart, never accept application data other than what the authenticated peer sent, in order and without gaps, and a client never completes a handshake with a server that does not hold the private key of a currently valid certificate chaining to a trusted root. Once faults stop, a retried session completes and all data is delivered within a bounded number of steps.",
 ["fault_sequences","histories","schedules","crash_points"],"every sequence of message loss, duplication, reordering, delay, corruption, partition, man-in-the-middle substitution, crash and restart, clock jump",
 "Tests exercise the primitives one at a time; no test combines two of them.",
 ["include/caligo/","src/"],[("composition of all primitives","include/caligo/{x25519,sha2,hkdf,gcm,rsa,Truststore,X509Certificate,random}.h")],["application data delivered at both endpoints, handshake completion, progress"],())
p("C16","Base64 text survives re-wrapping on its way",
 "Text produced by base64 encoding (any of the three alphabets, with or without line breaks and padding) decodes to exactly the original bytes after any number of intermediaries re-wrapped it: line breaks or other characters outside the alphabets inserted, moved or removed anywhere, line endings converted, padding stripped, the alphabet switched. The encoding itself is the RFC 4648 encoding, broken into lines of at most 76 characters when line breaks are requested; text cut off in transit decodes to a prefix of the original bytes.",
 ["histories","fault_sequences","inputs"],"every byte sequence, every sequence of re-wrapping relays, truncation at every point",
 "Tests decode a few fixed strings.",
 ["src/base64.cpp",H+"base64.h"],[("characters outside the alphabets are skipped; all alphabets decode","src/base64.cpp base64d")],["decoded bytes, encoded text"],())
p("C17","Prime generation returns the first prime the entropy source offers",
 "Whatever the entropy source delivers, prime generation returns exactly the first offered candidate (with its lowest and highest bit set, and in strict mode also its second highest) that is prime: composites, including Carmichael numbers and strong pseudoprimes to many bases, are never returned, primes are never skipped, the result always has the full requested length and every draw is consumed exactly once. If the entropy source fails it fails with an exception instead of returning a number; the primality test agrees with this for every number offered to it.",
 ["inputs","fault_sequences","histories"],"every sequence of entropy outcomes including adversarial ones (pseudoprimes, all zeroes, all ones), failures at any draw, all supported sizes",
 "Tests use the generator's own output and products of two such primes only.",
 [H+"random_prime.h",H+"bignum.h",H+"mont.h",H+"random.h"],[("Miller-Rabin with the first 1000 primes as bases","include/caligo/random_prime.h")],["returned number, number of draws consumed"],
 [("testValues","scripted entropy","src/random.cpp")])
p("C18","AES block encryption and GHASH multiplication are exact for every block",
 "For every key and block, AES-128/256 block encryption equals FIPS-197 and GHASH block multiplication equals the field product of SP 800-38D.",
 ["inputs"],"every 128/256-bit key and every block","Tests check single vectors.",[H+"aes.h","src/aes.cpp",H+"ghash.h"],[("AES-NI / PCLMUL","include/caligo/aes.h, ghash.h")],["block output"])
p("C19","Fixed-width and Montgomery arithmetic is exact for every operand",
 "For every width and operands, addition, subtraction, multiplication, comparison, reduction and Montgomery exponentiation equal the mathematical result modulo the width or modulus.",
 ["inputs"],"every operand and modulus","Tests check chosen operands.",[H+"bignum.h",H+"mont.h"],[("schoolbook arithmetic, REDC","include/caligo/bignum.h, mont.h")],["result words"])
p("C20","Secret-dependent operations take secret-independent time",
 "The time taken and memory addresses touched by private-key and key-exchange operations and tag comparison do not depend on secret values.",
 ["inputs"],"every pair of secrets","Timing is not tested.",[H+"x25519.h",H+"mont.h",H+"gcm.h"],[("ctime_swap, fixed iteration counts","include/caligo/bignum.h, x25519.h, mont.h")],["timing"])
p("C21","One-shot encodings and identifiers are byte-exact",
 "DigestInfo identifiers, PKCS#1 v1.5 and PSS encodings and the textual form of names and numbers equal their specification for every input.",
 ["inputs"],"every input","Tests check few vectors.",[H+"pkcs1.h",H+"sha3.h",H+"X509Certificate.h"],[("constant tables","include/caligo/sha*.h getAsn1Id")],["encoded bytes"])
with open(os.path.join(os.path.dirname(__file__),"../properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
