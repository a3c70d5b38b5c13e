"""What each property's check runs: harness, crypto library variant, bounds."""
ASSUME = [
    "The crypto library is modelled: AEAD as keystream XOR plus an unforgeable tag, HMAC as a collision-free function, with the argument and state rules of OpenSSL 3.0 / BoringSSL; memory allocation does not fail.",
    "The parts of libstdc++, Abseil and upb that ship only as binaries are replaced by source models (rt/, shim/); text of error messages is not modelled.",
    "Code is executed from clang 18 -O1 LLVM IR of the current sources; native replays use the same sources with ASan/UBSan, real libstdc++ and Abseil.",
]
PLAN = {}


def prop(pid, outside="", assume=()):
    PLAN[pid] = {"runs": [], "outside": outside, "assume": list(assume)}
    cur = PLAN[pid]

    def run(name, src, bounds, defs=(), variant="o", tm="single", tier="quick", timeout=500, jobs=2, reach=(), **kw):
        r = dict(name=name, src=src, bounds=bounds, defs=list(defs), variant=variant, tm=tm, tier=tier, timeout=timeout, jobs=jobs, reach=list(reach), **kw)
        cur["runs"].append(r)
    return run


r = prop("C10", outside="pseudorandom keys other than the listed lengths up to 80 bytes, info longer than 24 bytes, output lengths other than the listed ones; HMAC itself")
for v in "ob":
    r("lengths-" + v, "hkdf.cc", "all key and info bytes; one dimension at a time: output 0..3*digest+2; key lengths 0,1,16,31..33,47..49,63..65,80; info 0..24", ["MODE=0"], v, jobs=4)
    r("faults-" + v, "hkdf.cc", "every single failing library call, outputs 0,1,32,49,97, valid and invalid hash", ["MODE=1"], v, jobs=2)
r("limit-o", "hkdf.cc", "output lengths 255*digest-1 .. 255*digest+2", ["MODE=2", "CM_MACS=600"], "o", jobs=2)
r("product-o", "hkdf.cc", "key digest+{0,1,2,16}, info 0..20, output 0..4*digest+1, all bytes", ["MODE=3"], "o", tier="thorough", timeout=3000, jobs=8)

r = prop("C06", outside="streams with more or longer messages than stated; behaviour after an error beyond memory safety")
r("bytes-1", "hmh.cc", "every stream of 11 arbitrary bytes in one call", ["MODE=0", "LEN=11", "CALLS=1"], jobs=4)
r("bytes-2", "hmh.cc", "every stream of 9 arbitrary bytes in two calls cut anywhere, retrieval after the first", ["MODE=0", "LEN=9", "CALLS=2"], jobs=4)
r("bytes-3", "hmh.cc", "every stream of 7 arbitrary bytes in three calls cut anywhere", ["MODE=0", "LEN=7", "CALLS=3"], jobs=4)
r("messages", "hmh.cc", "2 messages (ticket with body 0..2, key update, any other type), three calls cut anywhere, retrieval after any call", ["MODE=1", "K=2", "CALLS=3", "BODY=2"], jobs=8)
r("limit", "hmh.cc", "7 tickets, three calls cut anywhere, retrieval after any call", ["MODE=2"], jobs=4)
r("long", "hmh.cc", "announced body 41..2^24-1, first 12 bytes delivered in two calls", ["MODE=3"], jobs=2)

r = prop("C09", outside="more than three buffers per argument, plaintexts other than 0..3 bytes (contents) or 16383,16384,16385,20001 bytes (lengths only), single buffers over 2^31-1 bytes")
for v in "ob":
    r("seal-" + v, "aead.cc", "plaintext 0..3 and associated data 0..2 arbitrary bytes in three buffers cut anywhere, output sizes need-17..need+7", ["MODE=0", "NMAX=3"], v, jobs=3)
    r("open-" + v, "aead.cc", "sealed plaintext of 0..2 arbitrary bytes, ciphertext and tag in three buffers cut anywhere, output exact, larger, smaller, none", ["MODE=1", "NMAX=2"], v, jobs=3)
    r("forge-" + v, "aead.cc", "after one sealing: any ciphertext 0..19 bytes, nonce, associated data 0..2 bytes", ["MODE=2", "NMAX=2"], v, jobs=3)
    r("args-" + v, "aead.cc", "key lengths 0..40, nonce lengths 0..20, any non-empty piece null", ["MODE=3"], v, jobs=3)
    r("faults-" + v, "aead.cc", "every single failing library call", ["MODE=4"], v, jobs=2)
    r("reuse-" + v, "aead.cc", "every sequence of 3 operations out of six kinds", ["MODE=5", "STEPS=3"], v, jobs=3)
    r("large-" + v, "aead.cc", "lengths 16383,16384,16385,20001, three cuts, output sizes need-1,need,need+5", ["MODE=6"], v, jobs=2)

r = prop("C18", outside="identity strings other than 0..2 bytes, more than four changes, sets larger than 9")
r("identity", "options.cc", "any two identities of every type, values of 0..3 arbitrary bytes", ["MODE=0", "LEN=3"], jobs=2)
r("changes", "options.cc", "any sequence of 3 changes, identity values 0..1 arbitrary bytes, addresses 0,9,18 bytes", ["MODE=1", "OPS=3", "LEN=1"], jobs=6)
r("copy", "options.cc", "2 changes, copy, one change to either, identity values 0..1 bytes", ["MODE=2", "OPS=2", "LEN=1"], jobs=6)
r("growth", "options.cc", "9 identities, two of them arbitrary", ["MODE=3"], jobs=2)
r("changes-deep", "options.cc", "any sequence of 4 changes", ["MODE=1", "OPS=4", "LEN=1"], jobs=8, tier="thorough", timeout=3000)

r = prop("C20", outside="identity values other than 0..4 bytes, tokens other than 0..6, 14..17, 33, 34 bytes")
r("enums", "maps.cc", "every 32-bit value of each enum", ["MODE=0"], jobs=2)
r("identities", "maps.cc", "every identity type, values of 0..4 arbitrary bytes", ["MODE=1", "LEN=4"], jobs=2)
r("token", "maps.cc", "variable unset or set to any token of 0..6, 14..17, 33, 34 bytes, every identity type", ["MODE=2"], jobs=2)

r = prop("C04", outside="plaintexts of more than 2 bytes by content (lengths up to 18064 are covered), more than three plaintext buffers")
for v in "ob":
    r("record-" + v, "prot.cc", "every ciphersuite, type (and an unknown one), record number, plaintext 0..2 arbitrary bytes in three buffers cut anywhere, output exact, +3, -1, 5, 0", ["MODE=0", "NMAX=2"], v, jobs=3)
    r("faults-" + v, "prot.cc", "every single failing library call", ["MODE=2"], v, jobs=2)
    r("sizes-" + v, "prot.cc", "plaintext lengths 255,256,4095,16383,16384,16385,65536, output exact or one short", ["MODE=3"], v, jobs=2)
r("lengths-o", "prot.cc", "every plaintext length 0..18064 and every output size 0..18200, lengths and bounds only", ["MODE=1"], "o", jobs=3)

r = prop("C05", outside="inner plaintexts of more than 7 bytes by content (lengths up to 16 KB are covered), more than two handshake records before the application data")
for v in "ob":
    r("inner-" + v, "unp.cc", "every inner plaintext of 1..%d arbitrary bytes, then application data" % (7 if v == "o" else 4), ["MODE=0", "LMAX=%d" % (7 if v == "o" else 4)], v, jobs=3)
    r("header-" + v, "unp.cc", "any header bytes of length 5,4,6,0, payloads of 0..19 arbitrary bytes, any verdict", ["MODE=1"], v, jobs=2)
    r("sizes-" + v, "unp.cc", "payload lengths 17..65553 at the limits", ["MODE=4"], v, jobs=2)
r("lengths-o", "unp.cc", "every header and every payload length 17..17017, lengths only", ["MODE=2"], "o", jobs=3)
r("middle-o", "unp.cc", "a ticket and/or key update cut anywhere into two records, padding 0..2, then application data", ["MODE=3"], "o", jobs=3)

r = prop("C03", outside="payloads over 20 bytes (their authentication is one opening like any other, see C09)")
for v in "ob":
    r("verdict-" + v, "auth.cc", "any record number, any payload with an inner plaintext of 1..3 bytes, arbitrary cipher verdict, before it nothing / half a ticket / a ticket, then a valid record", ["MODE=0", "NMAX=3"], v, jobs=4)
    r("change-" + v, "auth.cc", "a genuine record of 0..2 data bytes replaced by any bytes of the same length, shortened or extended by one", ["MODE=1", "NMAX=2"], v, jobs=3)
    r("misplaced-" + v, "auth.cc", "genuine records replayed, reordered, skipped, reflected, under an old or a future key", ["MODE=2"], v, jobs=2)
    r("faults-" + v, "auth.cc", "every single failing library call while opening", ["MODE=3"], v, jobs=2)

r = prop("C02", outside="sequences longer than the stated number of calls from an arbitrary starting record number")
for v in "ob":
    r("out-" + v, "seq.cc", "any starting number, any 4 calls out of protect, rejected protects, key update", ["DIRS=0", "STEPS=4", "SUITE=3"], v, jobs=4)
    r("in-" + v, "seq.cc", "any starting number, any 3 records: data, forged, bad header, key update, too small buffer, alert", ["DIRS=1", "STEPS=3", "SUITE=3"], v, jobs=4)

r = prop("C01", outside="more messages or longer ones than stated; lengths up to 2^14 are covered by C04/C05")
r("trip-o", "round.cc", "any starting numbers, any 3 messages (0 or 2 arbitrary bytes) or key updates by either side, delivered at once or at the end, three ways of cutting buffers", ["STEPS=3", "NMAX=2", "SUITE=3", "SYMKS=0"], "o", jobs=8)
r("trip-b", "round.cc", "any 2 messages or key updates", ["STEPS=2", "NMAX=2", "SUITE=3", "SYMKS=1"], "b", jobs=4)
r("long-o", "round.cc", "2 messages of 0 or 300 arbitrary bytes or key updates", ["STEPS=2", "NMAX=300", "SUITE=3", "SYMKS=0", "CM_CAP=384"], "o", jobs=4)
r("trip4-o", "round.cc", "any 4 messages or key updates", ["STEPS=4", "NMAX=2", "SUITE=3", "SYMKS=0"], "o", jobs=8, tier="thorough", timeout=3000)

r = prop("C07", outside="more than 3 records and updates in a row, secrets of other lengths than listed (rejected)")
for v in "ob":
    r("schedule-" + v, "keys.cc", "all traffic secrets, every ciphersuite, any 3 of: record out, record in, local update, peer's update; then one record each way", ["MODE=0", "STEPS=%d" % (3 if v == "o" else 2)], v, jobs=4)
    r("failure-" + v, "keys.cc", "every single failing library call during an inbound or outbound update, then records each way", ["MODE=3"], v, jobs=3)
    r("creation-" + v, "keys.cc", "every single failing library call during creation", ["MODE=4"], v, jobs=2)
r("create-o", "keys.cc", "every ciphersuite and TLS version value, secret lengths 0,1,16,31..33,47..49,64 each way", ["MODE=1"], "o", jobs=2)
r("pieces-o", "keys.cc", "key update after an optional ticket, cut anywhere into three records, records out in between, optional second update", ["MODE=2"], "o", jobs=4)

r = prop("C08", outside="more than six tickets, ticket bodies over 2 bytes, the RPC itself (not implemented in this repository)")
r("few-o", "tick.cc", "0..2 tickets with bodies of 0..2 arbitrary bytes and an optional key update cut anywhere into three records, application data before, between, after", ["MODE=0", "SUITES=0"], "o", jobs=8)
r("limit-o", "tick.cc", "four tickets in one or two records, then 1..2 tickets and an optional key update cut anywhere into three records, application data before, between, after", ["MODE=1", "SUITES=0"], "o", jobs=8)
r("request-o", "tick.cc", "any id, identity of every type with 0..3 arbitrary bytes, 0..3 tickets of 0, 9 or 18 arbitrary bytes", ["MODE=2"], "o", jobs=2)

r = prop("C11", outside="writes of more than 40300 bytes (three records; the advertised sizes are covered to 2^40), more than three buffers")
for v in "ob":
    r("small-" + v, "fprot.cc", "0..2 arbitrary bytes in three buffers cut anywhere, allocated or caller's buffer", ["MODE=0", "NMAX=2"], v, jobs=2)
    r("failures-" + v, "fprot.cc", "every single failing library call, record numbers used up, caller's buffer too small, for 0, 3 and 16385 bytes", ["MODE=4"], v, jobs=3)
r("records-o", "fprot.cc", "16383..32769 bytes with arbitrary bytes at the record boundaries, buffers cut at and around the boundaries", ["MODE=1", "CM_CAP=16500", "CM_OPS=6"], "o", jobs=3)
r("lengths-o", "fprot.cc", "every length 0..40300 in two buffers, lengths only", ["MODE=2"], "o", jobs=3)
r("sizes-o", "fprot.cc", "advertised sizes for every length in four ranges of 2^20 up to 2^40", ["MODE=3"], "o", jobs=2)

r = prop("C12", outside="more than two records (three buffers) per call by content, records longer than stated by content")
r("records-o", "funp.cc", "1..2 genuine records of 0 or 2 arbitrary bytes, whole / shortened / followed by junk / tag or header changed, two cuts, empty buffers none / null / non-null, both forms", ["MODE=0", "RECS=2", "SUITES=0"], "o", jobs=8)
r("records-b", "funp.cc", "as above, one record, every ciphersuite", ["MODE=0", "RECS=1", "SUITES=2"], "b", jobs=4)
r("bytes-o", "funp.cc", "any 0, 1, 4, 5, 21, 22 or 24 bytes, or two records with any header bytes, with an arbitrary cipher verdict, cut at three places, empty buffers, both forms", ["MODE=1", "SUITES=0"], "o", jobs=6)
r("kinds-o", "funp.cc", "ticket, key update or alert between application data", ["MODE=2", "SUITES=2"], "o", jobs=2)
for v in "ob":
    r("faults-" + v, "funp.cc", "every single failing library call", ["MODE=3", "SUITES=2"], v, jobs=2)
r("lengths-o", "funp.cc", "every announced and available length up to 17500, lengths only", ["MODE=4", "SUITES=0"], "o", jobs=2)

r = prop("C13", outside="longer call sequences, longer arbitrary byte strings, the real upb parser (replaced by a source model)")
r("calls", "hs.cc", "every sequence of three calls (start/next with or without peer bytes, responses with or without result and with any one part missing or invalid), then both hand-outs", ["MODE=20", "STEPS=3"], jobs=4)
r("bytes", "hs.cc", "any 1..4 bytes as response", ["MODE=21", "LEN=4"], jobs=4)
r("damaged", "hs.cc", "a complete response cut anywhere or with any one byte arbitrary", ["MODE=22"], jobs=2)

r = prop("C14", outside="more ciphersuites or identities, longer strings, the real upb encoder (replaced by a source model)")
r("scalars", "hs.cc", "client and server, protocol, hostname and peer bytes 0..2 arbitrary bytes, TLS versions 0..2, 0..1 ciphersuites 0..3", ["MODE=0", "SUITES=1"], jobs=3)
r("identities", "hs.cc", "client and server, 0..2 target and local identities of every type with 0..1 arbitrary bytes", ["MODE=1", "LEN=1"], jobs=6)
r("bytes", "hs.cc", "start and two next requests with 1,5,127,128,300 arbitrary peer bytes", ["MODE=2"], jobs=2)
r("tickets", "hs.cc", "0..3 tickets of 0..2 arbitrary bytes, every identity type, six connection ids from 0 to 2^64-1", ["MODE=3"], jobs=2)

r = prop("C15", outside="other sequence numbers than listed, longer strings, secrets other than the listed bytes, the real upb parser (replaced by a source model)")
r("session", "hs.cc", "every ciphersuite, five pairs of sequence numbers, arbitrary data, frames and local identity", ["MODE=30"], jobs=3, override=True)
r("context", "hs.cc", "every version, ciphersuite and identity type, protocol and fingerprints of 0..2 arbitrary bytes", ["MODE=31"], jobs=4, override=True)
r("frames", "hs.cc", "frames of 0,1,127,128,400 arbitrary bytes, any consumed count", ["MODE=32"], jobs=1, override=True)
r("keys", "hs.cc", "versions, ciphersuites, secrets of 0,16,31..33,47..49 bytes", ["MODE=33"], jobs=1, override=True)

r = prop("C16", outside="more than two local identities, more than two responses, longer names and tokens")
r("tokens", "hs.cc", "0..2 local identities of one arbitrary byte and two types, any tokens, any set of failing fetches, with and without manager, one selection", ["MODE=10", "LOCALS=2", "KINDS=2", "STEPS=1"], jobs=6)
r("selections", "hs.cc", "0..1 local identities, two selections", ["MODE=10", "LOCALS=1", "KINDS=1", "STEPS=2"], jobs=2)

r = prop("C17", outside="longer strings, longer arbitrary byte strings, the real upb parser and encoder (replaced by a source model)")
r("fields", "ctx.cc", "protocol, fingerprints of 0..2 arbitrary bytes, versions 0..2, ciphersuites 0..3, resumption", ["MODE=0"], jobs=3)
r("identities", "ctx.cc", "every pair of identity types with 0..2 bytes, fingerprints of 32 arbitrary bytes", ["MODE=1"], jobs=2)
r("wire", "ctx.cc", "any version and ciphersuite value out of ten, fields present or not", ["MODE=2"], jobs=3)
r("bytes", "ctx.cc", "any 0..4 bytes", ["MODE=3", "LEN=4"], jobs=4)
r("damaged", "ctx.cc", "a serialized context cut anywhere or with any one byte arbitrary", ["MODE=4"], jobs=2)

r = prop("C19", outside="more threads or operations, more than two preemptions per schedule, preemption between two plain memory accesses (races on them are reported instead), concurrent calls into one S2ACrypter in the same direction (not part of the property)")
r("crypter", "thr.cc", "one thread protecting and updating keys, one unprotecting data, key updates and tickets; two operations each", ["MODE=0", "SUITE=0"], jobs=4)
r("half", "thr.cc", "two threads on one half connection, two operations each out of seal, key update, tag length", ["MODE=1", "SUITE=2"], jobs=4)
r("same", "thr.cc", "two threads protecting (both overloads) or unprotecting through one frame protector", ["MODE=2", "SUITE=1"], jobs=2)
r("frames", "thr.cc", "one thread protecting, one unprotecting data, key updates and tickets through one frame protector; two operations each", ["MODE=3", "SUITE=0"], jobs=4)
NA = {}
