SL = "internal/sunlight"

check("C09", "Holds for every field value at the listed sizes: all assertions are decided by the solver over all timestamps, indices, hashes and certificate bytes.", [
    H(SL, "VerifLeafBytes", "certificate lengths 0..3, 255, 256, 65536; every timestamp, index, issuer key hash, certificate byte; both entry types", dict(cert=3), dict(cert=12), ["leaf", "index too large"]),
    H(SL, "VerifLeafUnique", "two arbitrary entries with certificates of 0..3 bytes", dict(cert=3), dict(cert=6), ["unique"]),
    H(SL, "VerifSequenceCopies", "arbitrary unsequenced entry, certificates of 0..2 bytes, 0..2 fingerprints", expect=["sequence"]),
])
check("C10", "Round trip and parser exactness for all values at the listed sizes.", [
    H(SL, "VerifTileRoundTrip", "tiles of 1..2 entries after an arbitrary prefix; certificates 0..1 bytes plus 255, 256, 65536; 0..2 fingerprints, and chains of 3, 8..11, 127, 128, 255, 256, 300, 2047; all field values", dict(entries=2, cert=1), dict(entries=3, cert=1), ["roundtrip"]),
    H(SL, "VerifTileArbitrary", "every byte string of length 0..27; lengths 57, 58, 60, 61 (thorough: 92) with certificates of at most 2 bytes", dict(len=27, long=4), dict(len=34, long=5), ["accepted", "accepted with a chain", "rejected"], q=dict(time=120), t=dict(time=500)),
])
check("C11", "Every 64-bit index; every extension byte string up to the bound.", [
    H(SL, "VerifExtRoundTrip", "every 64-bit index; one preceding unknown extension of 0..3 arbitrary bytes", expect=["fits", "too large"]),
    H(SL, "VerifExtArbitrary", "every extension block of 0..16 (thorough 24) bytes", dict(len=16), dict(len=24), ["accepted", "rejected"]),
])
check("C12", "Every tile number below 10^12, level -1..4 (thorough 6) and width 1..256.", [
    H(SL, "VerifPath", "levels data, 0..4; tile numbers 0..10^12-1; widths 1..256", dict(levels=6), dict(levels=8), ["path"]),
    H(SL, "VerifPathInvertible", "as VerifPath", dict(levels=6), dict(levels=8), ["inverted"]),
])
SUB = "internal/ctsubmit"
for pid, fn, d in (("C13", "VerifRecordHashes", "record-hash"), ("C14", "VerifDedupe", "dedupe")):
    check(pid, "Inductive: one arbitrary sorted %s index object followed by batches, every lookup decided for all hashes, indices and timestamps within the sizes." % d, [
        H(SUB, fn, "mask 0, 1 or 2 digits; an existing object of 0..1 arbitrary records; 1..2 batches of 0..2 records in two buckets, at most 3 records in all; lookups of every record and of an arbitrary other hash", dict(old=1, total=3), dict(old=2, total=4, n=3), ["records", "unknown"], t=dict(time=300)),
        H(SUB, fn, "existing objects of 0..4 arbitrary records, then one batch of 0..1", dict(old=4, batches=1, n=1, mask=2, total=5), dict(old=7, batches=1, n=1, mask=2, total=8), ["records", "unknown"], t=dict(time=200)),
        H(SUB, fn, "existing objects of 0..2 arbitrary records, then one batch of 0..2", dict(old=2, batches=1, n=2, mask=2, total=4), dict(old=3, batches=1, n=3, mask=2, total=5), ["records", "unknown"], t=dict(time=200)),
    ] + [
        H("internal/ctmonitor", "VerifProofByHash", "lookups through the monitor: trees of 1, 2, 257, 2^32+2 (thorough also 2^40-1, 65793, 2^24+257) entries, an arbitrary other record in the same object", dict(small=2, big=1, huge=1), dict(small=2, big=2, huge=3), ["asked"], q=dict(time=120), t=dict(time=300)),
        H("internal/ctmonitor", "VerifProofLarge", "0 to 66000 other records before and after the one looked up in the same index object", expect=["asked"]),
    ] * (pid == "C13") + [
        H(SUB, "VerifIndexLarge", "objects of 300 and 66000 (thorough also 40) records, then a batch of 1..2 at the ends, in the middle and around 128 and 256 (66000: 1 at the end); arbitrary indices, timestamps and tails", dict(dedupe=int(pid == "C14"), counts=2, added=2, ats=6), dict(dedupe=int(pid == "C14"), counts=3, added=2, ats=8), ["records"], q=dict(time=120), t=dict(time=300)),
        H(SUB, "VerifIndexFault", "existing objects of 0..2 arbitrary records, a batch of 1..2; the first or second read or write fails", dict(dedupe=int(pid == "C14")), dict(dedupe=int(pid == "C14"), old=3, n=3), ["stored", "failed"], t=dict(time=200)),
    ], ["16-byte prefixes of distinct leaf hashes differ"] if pid == "C13" else [])

check("C24", "Sequential read-back for all contents at the listed sizes, every step of a write as crash, failure, concurrent-read or concurrent-write point on a model of the file system; counterexamples are confirmed on the real file system (file size limit, concurrent readers and writers).", [
    H(SUB, "VerifFsReadBack", "every ordered pair of 7 representative keys; contents of 0, 1, 5 arbitrary bytes, 70001 and 2^20+5 bytes; write, write other, overwrite", expect=["readback"]),
    H(SUB, "VerifFsUnreachable", "7 keys, contents of 0, 1, 5 arbitrary bytes; everything fails for a while", expect=["unreachable"]),
    H(SUB, "VerifFsAtomic", "7 keys, old contents absent or 1..4 bytes, new 1..4 bytes, write failing after any number of bytes, every step of the write", expect=["~intermediate point", "written", "write failed"]),
    H(SUB, "VerifFsInterleaved", "a second complete write to the same or another key at each of the first 10 steps of a write", expect=["~interleaved"]),
    H(SUB, "VerifFsReadRace", "a complete write to the same or another key at each of the first 6 steps of a read; old contents absent or 1..4 bytes, new 1..4 bytes", expect=["~written during the read"]),
], ["the file system model (open/truncate, partial writes, rename atomic) matches POSIX; crash means process death, not power loss"])

RFC = "internal/rfc6979"
check("C25", "The scalar given to the base point multiplication is compared with an independent RFC 6979 computation for every key and digest; HMAC is an uninterpreted function, so every rejection history up to the bound is covered.", [
    H(RFC, "VerifNonce", "curve/hash pairs P-256/SHA-256, P-521/SHA-256, P-384/SHA-384, P-521/SHA-512; digests of 32, 48, 64, 20, 0, 1, 65 bytes; every key (0 or 1 leading zero bytes told apart); 0..1 rejected candidates", dict(rejections=1, digestlens=7, dzeros=2), dict(rejections=1, digestlens=10, dzeros=3, combos=9), ["~nonce", "~candidate rejected"], q=dict(time=120), t=dict(time=200)),
    H(RFC, "VerifNonce", "as above with 2 digest lengths, 0..2 rejected candidates and the first three pairs (thorough: all nine)", dict(rejections=2, digestlens=1, dzeros=1, combos=1), dict(rejections=2, digestlens=2, dzeros=1, combos=9), ["~nonce", "~candidate rejected"], q=dict(time=120), t=dict(time=300)),
    H(RFC, "VerifNonce", "the same key and digest signed three times", dict(rejections=0, digestlens=2, dzeros=1, combos=4, times=3), dict(rejections=0, digestlens=4, dzeros=2, combos=9, times=3), ["~nonce"]),
], ["HMAC is an uninterpreted function of key and message", "math/big byte conversions, bigmod and nistec are modelled (reduction and comparison exact)"])
check("C26", "Byte-exact comparison with an independent DER encoder for every r and s; r and s compared with r = x(kG) mod N and s = (e + r d)/k mod N with multiplication, addition, inversion and x(kG) uninterpreted and bits2int exact.", [
    H(RFC, "VerifSignature", "all three curves; digests of 32, 48, 64, 20, 0, 1, 65, 66 bytes; r and s zero or with 0..1 leading zero bytes; every key and digest", dict(zeros=1, dzeros=1, digestlens=8), dict(zeros=3, dzeros=2, digestlens=10), ["~signature", "~zero"], q=dict(time=120), t=dict(time=400)),
    H(RFC, "VerifEncode", "every pair of 32, 48 or 66-byte scalars with any number of leading zero bytes", expect=["zero", "encoded"]),
], ["field arithmetic (addition, multiplication, inversion mod N) and point multiplication in bigmod/nistec are correct"])

SETUP = "internal/ctsetup"
MON = "internal/ctmonitor"
WORLD = ["trees are what the submission side publishes with batches of at most 255 entries", "SHA-256 is collision-free", "object storage is a file system model (confirmed natively on a real directory and, for the URL store, a real HTTP server)"]
check("C17", "Every start and end on small trees of arbitrary entries; tile boundaries and the maximum on larger ones; a limited request budget.", [
    H(MON, "VerifEntriesAny", "trees of 1..3 (thorough 4) entries, the first 2 (3) arbitrary: timestamps, types, certificate bytes, chains of 0..1 certificates; every 64-bit start and end", dict(size=3), dict(size=4, focus=3), ["answered", "refused"], q=dict(time=120), t=dict(time=400)),
    H(MON, "VerifEntriesTiles", "trees of 257, 256, 258 (thorough also 513, 512, 511) entries, ranges around the tile boundaries, arbitrary last entries, an interrupted publication; the same at the end of trees of 2^32 (thorough also 2^24, 2^40) entries", dict(sizes=3, bases=2), dict(sizes=6, bases=4), ["answered"], t=dict(time=300)),
    H(MON, "VerifEntriesMax", "a tree of 1300 entries, ranges of 1023..1026", dict(starts=2), dict(starts=4), ["answered"]),
    H(MON, "VerifEntriesBudget", "trees of 2..4 entries with chains of 0..2, 3..8 requests left, maxima 1, 3, 75, 1024", expect=["answered", "exhausted"], q=dict(time=120)),
    H(MON, "VerifGrowth", "8 pairs of sizes from 0 to 65537: every endpoint asked about old and coming entries (or not), then the log grows and every endpoint is asked about old and new entries, at the new and the old size, by the same monitor", dict(pairs=8), dict(pairs=8), ["asked", "asked before", "grown"]),
], WORLD)
SIZES = "tree sizes 1..%s, and %s of 257, 65793, 256, 513, 65537, 255, 512, 65536, 65792, 131329; boundary indices and older sizes; every leaf hash and subtree hash arbitrary"
check("C18", "Audit paths are recomputed with an independent RFC 6962 verifier for every published leaf of the listed tree shapes, with arbitrary leaf hashes; arbitrary hashes against leftover index records.", [
    H(MON, "VerifProofByHash", SIZES % (5, "3 (thorough: all)"), dict(small=5, big=3, huge=0), {}, ["asked"], q=dict(time=150), t=dict(time=400)),
    H(MON, "VerifProofByHash", "trees of 2^32+2 (thorough also 2^40-1, 2^24+257, 2^33+65537, 2^39+3) entries, indices 0 ... 2^24, 2^32 and the last ones", dict(small=0, big=0, huge=1, others=0), dict(small=0, big=0, huge=5, others=0), ["asked"], q=dict(time=120), t=dict(time=300)),
    H(MON, "VerifHashLeftovers", "arbitrary query hash, index records of entries that were never published or whose index was reassigned", expect=["answered", "refused"], q=dict(time=120)),
    H(MON, "VerifGrowth", "8 pairs of sizes from 0 to 65537: every endpoint asked about old and coming entries (or not), then the log grows and every endpoint is asked about old and new entries, at the new and the old size, by the same monitor", dict(pairs=8), dict(pairs=8), ["asked", "asked before", "grown"]),
    H(MON, "VerifProofLarge", "0 to 66000 other records before and after the one looked up in the same index object", expect=["asked"]),
], WORLD + ["16-byte prefixes of distinct leaf hashes differ"])
check("C19", "Consistency proofs are checked with an independent RFC 6962 verifier; every pair of 64-bit sizes on small trees.", [
    H(MON, "VerifConsistency", SIZES % (5, "3 (thorough: all)"), dict(small=5, big=3, huge=0), {}, ["asked"], q=dict(time=150), t=dict(time=400)),
    H(MON, "VerifConsistency", "trees of 2^32+2, 2^40-1 (thorough also 2^24+257, 2^33+65537, 2^39+3) entries, indices 0 ... 2^24, 2^32 and the last ones", dict(small=0, big=0, huge=2, others=0), dict(small=0, big=0, huge=5, others=0), ["asked"], q=dict(time=120), t=dict(time=300)),
    H(MON, "VerifConsistencyAny", "every 64-bit first and second, trees of 1..3 entries", expect=["answered", "refused"], q=dict(time=120)),
    H(MON, "VerifGrowth", "8 pairs of sizes from 0 to 65537: every endpoint asked about old and coming entries (or not), then the log grows and every endpoint is asked about old and new entries, at the new and the old size, by the same monitor", dict(pairs=8), dict(pairs=8), ["asked", "asked before", "grown"]),
], WORLD)
check("C20", "Leaf, extra data and audit path of every published entry of the listed tree shapes compared with independent encoders and an independent verifier.", [
    H(MON, "VerifEntryAndProof", SIZES % (3, "3 (thorough: all)") + "; the entry arbitrary", dict(small=3, big=3, huge=0), {}, ["answered"], q=dict(time=150), t=dict(time=400)),
    H(MON, "VerifEntryAndProof", "trees of 2^32+2 (thorough also 2^40-1, 2^24+257, 2^33+65537, 2^39+3) entries, indices 0 ... 2^24, 2^32 and the last ones", dict(small=0, big=0, huge=1, others=0), dict(small=0, big=0, huge=5, others=0), ["answered"], q=dict(time=120), t=dict(time=300)),
    H(MON, "VerifEntryAndProofAny", "every 64-bit leaf index and tree size, trees of 1..3 entries", expect=["answered", "refused"], q=dict(time=120)),
    H(MON, "VerifGrowth", "8 pairs of sizes from 0 to 65537: every endpoint asked about old and coming entries (or not), then the log grows and every endpoint is asked about old and new entries, at the new and the old size, by the same monitor", dict(pairs=8), dict(pairs=8), ["asked", "asked before", "grown"]),
], WORLD)
check("C21", "Every combination of absent, arbitrary 64-bit, short arbitrary and unusual parameters; every single missing, unreadable or failing object.", [
    H(MON, "VerifRefuseNumbers", "two parameters, each absent, any 64-bit number, any text of 0..2 bytes, or one of 16 unusual texts; trees of 3, 0 (thorough 1) entries", dict(sizes=1, len=1), dict(sizes=3, len=2), ["answered", "refused"], q=dict(time=120), t=dict(time=400)),
    H(MON, "VerifRefuseHash", "hash parameter absent, any text of 0..3 bytes, base64 of wrong length, any hash; tree_size as above", dict(hlen=3, len=1), dict(hlen=4, len=2), ["answered", "refused"], q=dict(time=120), t=dict(time=400)),
    H(MON, "VerifFaults", "every object of trees of 3 and 258 (thorough 514) entries missing or unreadable (or the full tile that would replace it unreadable), all endpoints; then the failure is over, and then it is back, for the same monitor", dict(sizes=2), dict(sizes=3), ["not needed", "refused", "recovered"], q=dict(time=120), t=dict(time=300)),
    H(MON, "VerifUrlFaults", "object store behind HTTP, trees of 3, 1, 258 entries: any one request fails, breaks off or gets any error status", expect=["not needed", "refused"], q=dict(time=120)),
], WORLD)
check("C22", "All document contents at the listed lengths, all single-byte path changes to a lower-case letter or hyphen.", [
    H(MON, "VerifRelay", "documents of 0, 1, 3, 40, 700 arbitrary bytes, 70001 and 2^20+5 (thorough also 2^21+5) bytes, missing and unreadable; then a newer one", dict(lens=7), dict(lens=8), expect=["relayed", "refused"]),
    H(MON, "VerifUrlRelay", "as above through an HTTP object store with any error status, connection failure or truncation", dict(lens=7), dict(lens=8), expect=["relayed", "refused"]),
    H(MON, "VerifRouting", "all six endpoints: 9 other methods, 10 other paths, every replacement of one path byte", expect=["reachable", "other method", "other path"], q=dict(time=120)),
], WORLD)
LOG = ["the batches stage two receives are those stage one makes (C06)", "SHA-256 is collision-free; 16-byte prefixes of distinct leaf hashes differ",
       "object storage is a file system model (confirmed natively on a real directory)", "Consul is a model (natively a local HTTP server speaking its protocol)"]
TREES = "published trees of 0, 1, 255, 256, 257, 254, 2, 65535 (thorough: also 65536, 65537, 511, 512, 65791, 65792, 131071, 3) entries with arbitrary leaf and subtree hashes"
BATCHES = "batches 1+2, 2+1, 0+1+0, 255+2, 1+255, 255+255, 3+254, 2+0+3"
DELAYS = "each class of uploads delayed in turn until everything else has run as far as it can"
PUB = lambda b, qp, tp, **kw: H(SUB, "VerifPublish", b, qp, tp, ["published"], **kw)
check("C02", "The real LoadLog and stage two run from storage; every tree head and checkpoint about to be stored is compared with an independent RFC 6962 tree hash over the ghost log, for every leaf hash and entry.", [
    PUB(TREES + "; " + BATCHES + "; an arbitrary entry in the small batches", dict(sizes=8, scenarios=8), dict(sizes=16, scenarios=8, delays=3), q=dict(time=200), t=dict(time=600)),
    PUB("trees of 2^32-1, 2^32+65537 (thorough also 2^24-1, 2^40-600, 2^33+256, 2^31-1) entries; " + BATCHES[:11], dict(sizes=0, huge=2, scenarios=2), dict(sizes=0, huge=6, scenarios=8), q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifRestart", "trees of 0, 1, 255 entries, crash during a batch, restart, another batch", dict(sizes=3, scenarios=1), dict(sizes=8, scenarios=3), ["continued"], q=dict(time=200), t=dict(time=300)),
], LOG)
check("C03", "At every store of a tree head or checkpoint all tiles of the tree are compared with storage; every store that touches a tile of a published tree is checked; under every listed delay, failure and crash.", [
    PUB(TREES[:40] + "...; " + BATCHES[:18] + "; " + DELAYS, dict(sizes=3, scenarios=4, delays=9), dict(sizes=8, scenarios=8, delays=9), q=dict(time=200), t=dict(time=500)),
    PUB("trees of 2^32-1 (thorough also 2^32+65537, 2^24-1, 2^40-600, 2^33+256, 2^31-1) entries; " + BATCHES[:11], dict(sizes=0, huge=1, scenarios=2), dict(sizes=0, huge=6, scenarios=8), q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifFailStop", "one storage operation of each of 11 kinds fails, first or second of its kind, taking effect or not, while the others run first or later", dict(sizes=2, delays=3), dict(sizes=5, delays=4, scenarios=4), ["failed", "stopped"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifRestart", "as in C04", dict(sizes=3, scenarios=2), dict(sizes=8, scenarios=6), ["continued"], q=dict(time=200), t=dict(time=500)),
], LOG)
check("C04", "Crash at every subset of upload classes and before or after each later store, then the real LoadLog on what is left, then another batch with all online checks of C02, C03 and C16.", [
    H(SUB, "VerifRestart", "trees of 0, 1, 255, 256, 257 entries (thorough: 16 sizes); batches 2|2, 255|1, 1|3 (thorough also 2|1, 255|254, 3|255) around the crash; any non-empty subset of {data, level 0, upper, record hash, issuer} uploads lost, or only the second data/level-0 tile, or crash before/after tree head, checkpoint or dedupe store, or none", dict(sizes=5, scenarios=3), dict(sizes=16, scenarios=6, restarts=2), ["restarted", "continued"], q=dict(time=300), t=dict(time=700)),
    H(SUB, "VerifRestart", "the same for trees of 2^32-1 (thorough also 2^32+65537, 2^24-1, 2^40-600) entries; batches 2|2", dict(sizes=0, huge=1, scenarios=1), dict(sizes=0, huge=4, scenarios=3), ["restarted", "continued"], q=dict(time=120), t=dict(time=300)),
], LOG)
check("C05", "Every single storage failure point of a batch; afterwards nothing may be stored or returned and leadership must be given up.", [
    H(SUB, "VerifFailStop", "trees of 1, 255 (thorough also 0, 256, 65535) entries; batches 2+3+1 (thorough also 0+2+1, 3+0+2, 255+2+1); one storage operation of each of 11 kinds fails, first or second of its kind, taking effect or not; the failing kind, data tiles or record hashes delayed until everything else is under way", dict(sizes=2, delays=4), dict(sizes=5, delays=4, scenarios=4), ["failed", "stopped"], q=dict(time=120), t=dict(time=600)),
], LOG)
check("C06", "Stage one run alone under every arrival pattern within the bounds; every entry field, index and time arbitrary.", [
    H(SUB, "VerifSequence", "any tree size below 2^40; 4 (thorough 5) steps, each one or two arrivals, half or a whole flush interval passing; the next stage eager or blocked until the end", dict(steps=4), dict(steps=5), ["sequenced"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifSequenceBurst", "bursts of 254, 255, 256, 300, 510, 511, 520, 765 (thorough 900) entries after 0..2 others and half an interval or none; the next stage taking them at once, after all have arrived, or 25 intervals later", dict(bursts=8), dict(bursts=9), ["sequenced"], q=dict(time=120)),
    PUB("entries returned by stage two: trees of 0, 1, 255 entries; " + BATCHES[:26], dict(sizes=3, scenarios=4), dict(sizes=8, scenarios=8), q=dict(time=120), t=dict(time=300)),
    PUB("the same, trees of 2^32-1 (thorough also 2^32+65537, 2^24-1, 2^40-600) entries", dict(sizes=0, huge=1, scenarios=1), dict(sizes=0, huge=4, scenarios=4), q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifSlow", "submissions whose clients have given up, then others", expect=["later"], q=dict(time=60)),
], LOG[1:])
check("C16", "Every tree head and checkpoint stored is parsed with independent code; signature, size, root, origin and date are checked for every clock value and entry timestamp.", [
    PUB("trees of 0, 1, 255 entries; " + BATCHES[:18] + "; both entry types, any entry timestamp up to 2^20 ms before the clock; any clock", dict(sizes=3, scenarios=3, types=3), dict(sizes=8, scenarios=3, types=3, arbitrary=2), q=dict(time=200), t=dict(time=500)),
    PUB("trees of 2^32-1 (thorough also 2^32+65537, 2^24-1, 2^40-600) entries", dict(sizes=0, huge=1, scenarios=1), dict(sizes=0, huge=4, scenarios=3), q=dict(time=120), t=dict(time=300)),
], LOG)
check("C27", "Whenever a tree head or checkpoint is stored, every chain certificate of the entries it adds is looked up; every issuer store is checked against its name.", [
    PUB("trees of 0, 1, 255 entries; " + BATCHES[:18] + "; chains of 0..2 certificates, an arbitrary 1-byte issuer, issuers shared within and across batches; " + DELAYS, dict(sizes=2, scenarios=2, types=3, delays=5), dict(sizes=3, scenarios=3, types=3, delays=9, arbitrary=2), q=dict(time=200), t=dict(time=500)),
    H(SUB, "VerifFailStop", "as in C05", dict(sizes=2, delays=2), dict(sizes=5, delays=4, scenarios=4), ["failed"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifSubmit", "trees of 0, 1 (thorough also 255, 256) entries; two submissions of 13 forms through the HTTP handler, an arbitrary certificate", dict(sizes=2), dict(sizes=4, submissions=3), ["certificate", "precertificate"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifSubmitConcurrent", "three (thorough four) submissions at the same time, chains through cross-certified authorities", dict(sizes=1), dict(sizes=4, submissions=4, delays=9), ["concurrent"], q=dict(time=120), t=dict(time=300)),
], LOG + ["X.509 parsing and signature checks are models under the engine; natively real certificates"])
FORMS = "certificates and precertificates, by an intermediate, a root, a precertificate signing certificate of an intermediate or of the root, a CA two levels down, a cross-certified CA, with and without the root, with a tolerated parse error, a root itself"
X509 = ["X.509 parsing, signature checks and TBS rewriting are models under the engine (path building and all of ctfe.ValidateChain are the real code); natively real certificates"]
check("C01", "Submissions through the real HTTP handler, LoadLog and all three stages; at the moment an answer arrives its entry must be stored and covered, under every single storage failure.", [
    H(SUB, "VerifSubmitFault", "trees of 1, 255 (thorough also 0) entries; a certificate or precertificate (thorough 5 forms), submitted twice; one storage operation of each of 11 kinds fails, taking effect or not, alone or with everything after it, at once or when everything else is under way; every content byte", dict(sizes=2, forms=2), dict(sizes=3, forms=5), ["published", "refused"], q=dict(time=120), t=dict(time=400)),
    H(SUB, "VerifSubmit", "trees of 0, 1, 255 (thorough 0..257) entries; two (three) submissions of 13 forms, an arbitrary certificate", dict(sizes=3), dict(sizes=5, submissions=3), ["certificate", "precertificate"], q=dict(time=120), t=dict(time=400)),
    PUB("entries returned by stage two: trees of 0, 1, 255 entries; " + BATCHES[:26] + "; each kind of upload delayed", dict(sizes=3, scenarios=4), dict(sizes=8, scenarios=8, delays=3), q=dict(time=120), t=dict(time=400)),
    H(SUB, "VerifFailStop", "as in C05", dict(sizes=2, delays=2), dict(sizes=5, delays=4, scenarios=4), ["failed"], q=dict(time=120), t=dict(time=300)),
], LOG[1:] + X509)
check("C07", "The answer is parsed with independent code and compared with the entry found in the stored data tile, which is compared with an independent encoding of what was submitted, for every certificate content and clock.", [
    H(SUB, "VerifSubmit", "trees of 0, 1, 255, 256, 2^32-1 (thorough also 257, 254, 2, 65535, 2^32+65537) entries; two (three) submissions of 13 forms (" + FORMS + "), an arbitrary certificate", dict(sizes=4, huge=1), dict(sizes=8, submissions=3, huge=2), ["certificate", "precertificate", "precertificate, signing certificate", "precertificate, signing certificate of the root", "root"], q=dict(time=150), t=dict(time=600)),
    H(SUB, "VerifSubmitConcurrent", "three (thorough four) submissions at the same time, then all of them again; trees of 0, 255 (thorough also 254, 1) entries", dict(sizes=2), dict(sizes=4, submissions=4, delays=9), ["concurrent"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifResubmitIssuer", "a precertificate whose signing certificate was issued by two CAs, submitted under both", expect=["other issuer"], q=dict(time=60)),
], LOG + X509)
check("C08", "Histories of submissions, other submissions, restarts and repeated submissions over the real code; answers compared byte for byte, and any entry added that should not be is an alarm.", [
    H(SUB, "VerifResubmit", "5 (thorough 13) forms, an arbitrary certificate byte; 0..1 (0..2) other submissions, a restart before or after them or none; repeated twice with the same chain, the chain with or without root, or another path; 16 (thorough also 256 and 2^20) index buckets; the other entry in the same bucket before or after", dict(forms=5, others=1), dict(masks=3, sizes=2), ["again", "near"], q=dict(time=150), t=dict(time=700)),
    H(SUB, "VerifResubmitIssuer", "a precertificate whose signing certificate was issued by two CAs, submitted under both and again under both, with or without a restart", expect=["other issuer"], q=dict(time=60)),
    H(SUB, "VerifLookupFault", "the duplicate check of a repeated submission fails", expect=["lookup failed"], q=dict(time=60)),
    H(SUB, "VerifSubmitConcurrent", "three submissions at the same time, then all of them again", dict(sizes=2), dict(sizes=4, submissions=4), ["concurrent"], q=dict(time=120), t=dict(time=300)),
], LOG + X509 + ["the same certificate is not submitted again before the first submission has been answered"])
check("C23", "The real handler, ctfe.ValidateChain and path building on every listed body and chain, both endpoints, every expiry time; anything that reaches storage or the sequencer is an alarm.", [
    H(SUB, "VerifRefuseBody", "25 malformed bodies and one over 128 KiB, both endpoints; then a good submission", expect=["refused"], q=dict(time=60)),
    H(SUB, "VerifRefuseChain", "29 bad chains (missing, wrong, extra, repeated, misordered, forged, non-CA certificates, unknown and impersonated roots, ill-formed poison, roots that are precertificates or signing certificates), as certificate and precertificate, both endpoints, every content byte", expect=["refused"], q=dict(time=60)),
    H(SUB, "VerifRefuseKind", "13 good forms, every 32-bit expiry time of the leaf, both endpoints", expect=["accepted", "refused"], q=dict(time=60)),
    H(SUB, "VerifSlow", "flush interval longer than the answer limit; storage that hangs, with the sequencer's queue full", expect=["later", "queue full"], q=dict(time=60)),
], LOG + X509)
check("C15", "Checkpoints made by the real code are opened with golang.org/x/mod's note package under the real verifier, for every size, timestamp and root; every other size, timestamp and root and every edit of the signature is tried against the verifier, and every edit of the text against the parser.", [
    H(SL, "VerifCheckpoint", "3 origins, 2 keys, every size 0..2^63-1, timestamp and root; opened under its own, another key's and another name's verifier", expect=["checkpoint"]),
    H(SL, "VerifCheckpointOther", "sizes 0, 923748, 2^63-1, every timestamp and root; every other 64-bit size (negative ones too), timestamp, root, two keys, an extension line", expect=["accepted", "rejected"]),
    H(SL, "VerifCheckpointMalformed", "any 0..15 bytes as signature; any byte changed, inserted or removed in the first 15 and last 3 bytes", expect=["malformed"]),
    H(SL, "VerifCheckpointRSA", "one RSA key, every size, timestamp and root; other timestamp, root, algorithm, stray bytes; the other kind of signature", expect=["RSA"]),
    H(SL, "VerifCheckpointName", "every name of 0..2 (thorough 3) bytes", dict(len=2), dict(len=3), ["named", "refused"], t=dict(time=300)),
    H(SL, "VerifParseCanonical", "every size and root; origins empty, ordinary or any two bytes; 0..2 extension lines", expect=["canonical"]),
    H(SL, "VerifParseEdited", "canonical texts of two sizes, every root starting with a zero byte, with or without an extension; at every position 0..1 bytes replaced by any 0..1 (thorough 2) bytes", dict(width=1), dict(width=2), ["parsed", "refused"], t=dict(time=300)),
    H(SL, "VerifParseSize", "size lines of any 0..3 bytes and 8 unusual ones", expect=["parsed", "refused"]),
    H(SL, "VerifParseRoot", "root lines with any 4 last characters, of 0, 31, 33, 64 bytes, broken in two", expect=["parsed", "refused"]),
    H(SL, "VerifParseAny", "any text of 0..5 (thorough 8) bytes; texts around the size limit", dict(len=5), dict(len=8), ["short", "long"], t=dict(time=300)),
], ["ECDSA and RSA signatures are injective functions of key and digest (unforgeability)"])
check("C28", "The real LoadLog (and MainMain) against a Consul model with locks and sessions and a stored log; every listed start-up object is removed, damaged or replaced by arbitrary contents, and the log must not start.", [
    H(SUB, "VerifStart", "trees of 0, 1, 5, 256, 257, 65537, 2^32-1, 2^32+65537 (thorough also 255, 65536, 512, 2^24+1, 2^24-1, 2^40-600, 2^33+256, 2^31-1) entries, arbitrary hashes; everything loaded is compared with what was stored", dict(sizes=6, huge=2), dict(sizes=10, huge=6), ["started"]),
    H(SUB, "VerifStartOrder", "trees of 0, 1, 5 (thorough 6 sizes) entries; each stored object, the key and the configuration absent, garbage, empty or outdated until the lock is acquired", dict(sizes=3), dict(sizes=6), ["after the lock"]),
    H(SUB, "VerifStartLocked", "the lock cannot be acquired; another server holds it", expect=["refused", "second server"]),
    H(SUB, "VerifLockLost", "the lock is lost while starting, before, after starting the stages, after and during a submission", expect=["lost"], q=dict(time=60)),
    H(SUB, "VerifServe", "MainMain: a good start, and 6 failing ones, up to the listener's first Accept", expect=["serving", "refusing"]),
    H(SUB, "VerifStartKey", "3x3 keys and log IDs, every 32-byte log ID, 9 ill-formed ones, 14 unreadable or ill-formed key files", expect=["key", "although the private key is not the log ID's"]),
    H(SUB, "VerifStartConfig", "absent, failing, 11 ill-formed and 6 cut-off configurations, 6 ill-formed dates", expect=["although its configuration cannot be read"]),
    H(SUB, "VerifStartHead", "trees of 5, 0 (thorough 257) entries; absent, unreadable, 10 ill-formed, 5 cut-off tree heads; signed by another key, with any other size, time, root, signatures of other forms", dict(sizes=2), dict(sizes=3), ["although its tree head cannot be verified"]),
    H(SUB, "VerifStartRoots", "absent, unreadable, 8 ill-formed and 5 cut-off root lists, 5 non-certificates beside a root", expect=["although the accepted roots cannot be read"]),
    H(SUB, "VerifStartTile", "trees of 1, 5, 256 (thorough also 257, 65537, 255, 65536) entries; each edge tile absent, unreadable, empty, shorter, longer, with any other entry or byte first, last or in the middle, entries exchanged or missing", dict(sizes=3), dict(sizes=7), ["although the edge tile of level -1 does not match the tree head", "although the edge tile of level 0 does not match the tree head", "although the edge tile of level 1 does not match the tree head"], q=dict(time=150), t=dict(time=800)),
    H(SUB, "VerifStartSize", "signed tree heads of 7 other sizes with any root", expect=["although its tiles are not there"]),
], LOG + ["the Consul client is replaced under the engine by a model of locks, sessions and reads (natively a small Consul server)"])
check("C29", "The real FastlyStorage and FastlyServe over a model of the edge host (config store, edge cache, backends: harness/deps.json redirects the SDK's host calls); every read is compared with what the backend last answered, every served request with the monitor's own answer.", [
    H(MON, "VerifEdgeGet", "every sequence of 3 reads of 2 keys and 2 backends by one or several requests, local, deployed, deployed with an edge cache that keeps nothing; objects present (any 0..2 bytes, 3 (thorough 10) cache-control headers), 404, other status, no answer, broken-off answer, changing in between; the edge cache failing in 3 ways", dict(kinds=3, headers=3), dict(kinds=5, headers=10), ["object", "not found", "cached", "error", "end"], q=dict(time=120), t=dict(time=600)),
    H(MON, "VerifEdgeStatus", "every status 0..999, read twice, 3 modes; objects of 70001 and 2^20+5 bytes", expect=["status"]),
    H(MON, "VerifEdgeBackend", "6 unusable backend names, 3 modes", expect=["unusable backend"]),
    H(MON, "VerifEdgeRefuse", "4 write methods; 7 unknown hosts; 10 unknown paths and the 4 served ones with any byte changed, inserted or removed; no config store", expect=["method", "host", "path"]),
    H(MON, "VerifEdgeServe", "the 4 endpoints on trees of 5 (thorough also 1) entries, hashes and certificate arbitrary, each object missing, failing or unreachable; every request twice", dict(trees=1), dict(trees=2), ["answered", "refused"], q=dict(time=120), t=dict(time=300)),
], WORLD + ["the edge cache answers what was last stored under exactly that key, nothing, or an error"])
check("C30", "The real ctsetup.MainMain over the Consul and file system models, then the real LoadLog, Start and the monitor on what it stored; failing steps must end it with an error.", [
    H(SETUP, "VerifSetup", "12 lists of 1..4 roots (repeated ones, ones sharing subject, key or contents, ones with tolerable errors), an arbitrary byte in one; 4 layouts of the PEM file; two configurations; a directory that exists or not, or holds what an earlier attempt left; then monitor, server and (optionally) a first submission", expect=["set up", "replaced", "monitored", "started", "used"]),
    H(SETUP, "VerifSetupFails", "roots file absent, unreadable, 6 ill-formed ones; 5 non-certificates first or last; Consul failing; key file absent, unreadable, 7 ill-formed ones; storage failing in 6 ways", expect=["the roots cannot be read", "one of the roots is not a certificate", "the configuration cannot be stored", "the key cannot be read", "an object cannot be stored"]),
], LOG + X509 + ["the Consul client is replaced under the engine by a model (natively a small Consul server)", "text between PEM blocks and blocks of other types are not roots"])
check("C31", "The real S3Storage over a model of the S3 client (natively the real client against a local HTTP server speaking the protocol over a directory); every failure kind of every operation, and the whole log run on it with every assertion of the other properties counting.", [
    H(SUB, "VerifS3ReadBack", "every ordered pair of 7 representative keys; contents of 0, 1, 5 arbitrary bytes, 70001 and 2^20+5 bytes; write, write other, overwrite", expect=["read back"]),
    H(SUB, "VerifS3Fault", "7 keys, absent or present; read, write, existence; 3 (thorough 8) error statuses, connection refused, answer lost, answer cut off", dict(statuses=3), dict(statuses=8), ["failed"]),
    H(SUB, "VerifS3Index", "record-hash and dedupe indexes and issuers, existing or not, the store working, answering 403 or 500, or unreachable", expect=["index"]),
    H(SUB, "VerifPublish", "all assertions of C01-C06, C13, C16, C27 on an S3 store: trees of 0, 1, 255 (thorough 0..257) entries; batches 1+2, 2+1 (thorough also 0+1+0, 255+2)", dict(s3=1, all=1, sizes=3, scenarios=2), dict(s3=1, all=1, sizes=5, scenarios=4), ["published"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifRestart", "as C04, trees of 0, 1 (thorough also 255) entries", dict(s3=1, all=1, sizes=2, scenarios=1), dict(s3=1, all=1, sizes=3, scenarios=2), ["continued"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifSubmit", "as C07, trees of 0, 1 (thorough also 255) entries", dict(s3=1, all=1, sizes=2), dict(s3=1, all=1, sizes=3), ["certificate", "precertificate"], q=dict(time=120), t=dict(time=300)),
    H(SUB, "VerifResubmit", "as C08, 2 (thorough 5) forms", dict(s3=1, all=1, forms=2, others=1), dict(s3=1, all=1, forms=5, others=1), ["again"], q=dict(time=120), t=dict(time=300)),
    H(SETUP, "VerifSetup", "as C30: set-up, server, monitor and first submission", dict(s3=1, all=1), dict(s3=1, all=1), ["set up", "monitored", "started", "used"], q=dict(time=60)),
    H(SETUP, "VerifSetupFails", "as C30; either object's write answered 403 or 500, refused, or its answer lost", dict(s3=1, all=1), dict(s3=1, all=1), ["an object cannot be stored"], q=dict(time=60)),
], LOG + X509 + ["the S3 client is replaced under the engine by a model of GetObject, HeadObject and PutObject (errors as the SDK reports them)"])
