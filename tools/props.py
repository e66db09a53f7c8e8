import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
SUB='internal/ctsubmit/'; MON='internal/ctmonitor/'; SUN='internal/sunlight/'
NOT="No test of this code runs without docker; the repository's stable tests only cover internal/rfc6979."

p('C01','An SCT is only issued for an entry that is already published',
 "Whenever add-chain or add-pre-chain answers a submission with an SCT, the entry that SCT describes is already stored at its leaf index in the data tiles and covered by both the stored signed tree head and the stored checkpoint. If any storage operation needed to publish the entry fails, the submission is answered with an error (or not at all) and never with an SCT.",
 ['schedules','fault_sequences','inputs'],"every pool of submitted entries (certificates and precertificates mixed), every starting tree position, every subset of failing storage operations and every interleaving of the sequencing stages within the stated bounds",
 NOT+" The docker integration test only submits against healthy storage and never looks at the bucket at the moment an SCT is returned.",
 [SUB+'logic.go',SUB+'bucket.go'],[('entries are handed back on their return path only after tiles, issuers, hashes, tree head, checkpoint and dedupe are uploaded',SUB+'logic.go stageTwo'),('the submission handler waits on the return path or times out with 503',SUB+'logic.go stageZero')],
 observe=['add-chain / add-pre-chain response','objects in the bucket'])
p('C02','Published tree heads are exact Merkle roots and only ever append',
 "Every signed tree head and checkpoint the log stores for size n carries the RFC 6962 Merkle tree hash of the log's entries 0..n-1, in index order. Tree sizes never decrease and each published tree is an append-only extension of every tree published before it, across tile boundaries of any level and across batches of any size, including empty batches.",
 ['inputs','histories'],"every starting tree size in the stated set (covering all tile-boundary shapes), every batch size and every content of the entries; histories by induction over one batch from an arbitrary valid state plus explicit multi-batch histories",
 NOT+" Tile boundaries (256, 65536 leaves) are outside what an example based test reaches.",
 [SUB+'logic.go',SUN+'misc.go'],[('stored hashes are computed per leaf over an overlay plus the right-edge tiles',SUB+'logic.go stageTwo, hashReader'),('edge tiles are advanced after every batch',SUB+'logic.go stageTwo')],
 state=[('edgeTiles','right-most tile of every level and the right-most data tile',SUB+'config.go stageTwoData'),('treeSize','size of the last published tree',SUB+'config.go stageTwoData')],observe=['ct/v1/get-sth','checkpoint'])
p('C03','A published tree head is always backed by complete stored tiles',
 "At every instant, including after a crash or storage failure between any two storage operations, all hash tiles and data tiles of the tree described by the stored signed tree head and by the stored checkpoint are present in storage, at the widths that tree size requires. Hash tiles reproduce the published root and the data tiles decode to exactly the entries, in index order, whose leaf hashes are the level-0 tile hashes.",
 ['crash_points','fault_sequences','inputs'],"every crash point / failing subset of storage operations while publishing a batch of any content from any starting size within the bounds",
 NOT+" Crash points are never injected.",
 [SUB+'logic.go',SUN+'tile_ol.go'],[('all uploads of a batch are awaited before the tree head is written',SUB+'logic.go stageTwo'),('data tile is accumulated leaf by leaf and uploaded full and partial',SUB+'logic.go stageTwo')],observe=['tile/... objects','ct/v1/get-sth','checkpoint'])
p('C04','After any crash the log restarts from its published tree and continues it',
 "Whatever storage operations had been applied when the process stopped, restarting from storage succeeds, resumes at exactly the size of the stored signed tree head, and every tree it publishes afterwards extends that tree. No index covered by the published tree head is ever assigned again, and the tiles written after the restart are the same ones an uninterrupted log would have written for the same entries.",
 ['crash_points','histories','fault_sequences'],"every subset of the storage operations of a batch applied before the crash, then reload, then a further batch; all starting sizes in the stated set",
 NOT+" No test restarts a log with entries in it.",
 [SUB+'config.go',SUB+'logic.go',SUN+'tile_reader_ol.go'],[('edge tiles are re-read and verified against the stored tree head',SUB+'config.go LoadLog'),('sequencing restarts at the stored tree size',SUB+'config.go LoadLog')],observe=['tiles and tree heads written after a restart'])
p('C05','A storage failure stops sequencing before anything else is published',
 "If any storage read or write performed while publishing a batch fails, nothing further is published by that process: no later batch is sequenced into storage, no new tree head or checkpoint is stored for the failed batch unless everything before it in that batch succeeded, and no submission in the failed batch is answered with an SCT. The failure is surfaced so that the log gives up its leadership.",
 ['fault_sequences','schedules'],"every position and combination of failing storage operations over consecutive batches within the bounds",
 NOT+" Storage faults are never injected.",
 [SUB+'logic.go'],[('stage two returns on any error and never resumes',SUB+'logic.go stageTwo'),('the leader lock is released when a stage ends',SUB+'logic.go Start')],observe=['sequence of storage writes','lock release'])
p('C06','Sequencing gives every accepted entry exactly one consecutive index',
 "Entries accepted for sequencing are assigned consecutive leaf indices starting at the current tree size, in arrival order, with no gap, duplicate, loss or reordering, and each is handed to publication exactly once, in batches whose indices continue where the previous batch ended. Batches never exceed the bound (255) that keeps every partial tile width reachable, and an entry keeps the caller's return path and the timestamp taken when it was sequenced.",
 ['schedules','inputs','histories'],"every interleaving of arrivals and flush timer firings, every number of entries up to the bound, every starting index, every clock behaviour",
 NOT+" Timer/arrival interleavings are scheduler dependent.",
 [SUB+'logic.go'],[('pool, sequence counter and flush timer',SUB+'logic.go stageOne')],observe=['batches handed to stage two'])
p('C07','The SCT returned is a valid signature over exactly the logged entry',
 "An SCT answer carries version 1, the log's ID, the timestamp and leaf index under which the entry was sequenced, extensions that encode that leaf index, and a signature by the log key that verifies over the RFC 6962 digitally-signed structure built from the entry as logged (entry type, certificate or issuer key hash and TBS, timestamp, extensions). For a precertificate the issuer key hash is that of the final issuing CA and the TBS has the poison removed, also when a dedicated precertificate signing certificate is used.",
 ['inputs'],"every chain shape (certificate, precertificate, precertificate via a precert-signing intermediate), all certificate bytes up to the bound, all indices and timestamps",
 NOT,
 [SUB+'logic.go',SUN+'tile_ol.go',SUN+'digitallysign_ol.go',SUN+'extensions_ol.go'],[('entry construction and response',SUB+'logic.go stageZero'),('signed structure',SUN+'tile_ol.go MerkleTreeLeaf')],observe=['add-chain / add-pre-chain response'])
p('C08','Resubmitting a logged certificate returns the original index and timestamp',
 "Once a submission has been answered with an SCT, submitting the same leaf certificate again is answered with the same timestamp, leaf index and signature and adds nothing to the log, for any number of other entries logged before or since and after a restart. A certificate that is not in the log is never mistaken for a duplicate.",
 ['histories','inputs'],"every dedupe index content consistent with earlier puts, every fingerprint (colliding bucket or not), every mask size within the bounds",
 NOT,
 [SUB+'logic.go',SUB+'bucket.go'],[('dedupe lookup before sequencing',SUB+'logic.go stageZero'),('dedupe entries stored before the SCT is released',SUB+'logic.go stageTwo'),('deterministic signatures',SUN+'digitallysign_ol.go')],observe=['add-chain responses','int/dedupe objects'])
p('C09','Merkle leaves and signed SCT input are byte-exact RFC 6962 structures',
 "The Merkle tree leaf of an entry is byte for byte the RFC 6962 MerkleTreeLeaf/TimestampedEntry encoding of its timestamp, type, certificate (or issuer key hash and TBS) and a leaf-index extension, and it determines those fields uniquely. Indices that do not fit 40 bits are never encoded.",
 ['inputs'],"all entries with certificate bytes up to the bound, all 64-bit timestamps and indices",
 NOT,[SUN+'tile_ol.go',SUN+'extensions_ol.go'],[('leaf builder',SUN+'tile_ol.go MerkleTreeLeaf')],observe=['leaf_input','tile hashes'])
p('C10','Data tiles decode to exactly the entries appended to them',
 "Appending entries to a data tile and reading them back yields the same entries in the same order, whatever their type, certificate bytes, chain fingerprints, timestamp and index, and leaves nothing over. Reading arbitrary bytes never panics, always makes progress, and succeeds only for byte strings that are exactly the encoding of the entry returned followed by the remainder returned.",
 ['inputs'],"all entries and all byte strings up to the stated lengths",
 NOT,[SUN+'tile_ol.go'],[('encoder',SUN+'tile_ol.go AppendTileLeaf'),('decoder',SUN+'tile_ol.go ReadTileLeaf')],observe=['tile/data objects'])
p('C11','The leaf-index extension round-trips and rejects malformed input',
 "Every leaf index below 2^40 encodes to the static-ct leaf_index extension (type 0, 2-byte length 5, 40-bit big-endian) and parses back to itself, larger ones are refused. Parsing arbitrary extension bytes never panics, ignores unknown extensions before it, and only returns an index that a well-formed leaf_index extension in the input carries.",
 ['inputs'],"all 64-bit indices; all byte strings up to the bound",NOT,[SUN+'extensions_ol.go'],[('codec',SUN+'extensions_ol.go MarshalExtensions, ParseExtensions')],observe=['SCT extensions'])
p('C12','Tile object names follow static-ct and never collide',
 "The object name of a tile is the static-ct path for its level, index (three digits per element, all but the last prefixed with x) and width (partial suffix exactly when narrower than 256), so that different tiles never share a name and the submission and monitoring sides agree on every name.",
 ['inputs'],"all tile levels, indices up to the bound and widths 1..256",NOT,[SUN+'tile_ol.go'],[('path builder',SUN+'tile_ol.go Path')],observe=['tile/... object names'])
p('C13','The record-hash index finds every logged leaf hash at its index',
 "After any sequence of batches, looking a leaf hash up in the record-hash index (from the submission side and from the monitor) returns the leaf index it was stored with, for every hash stored and for any sharing of buckets; hashes never stored are reported as not found. Every index object stays sorted, well-formed and complete: adding records never drops, corrupts or reorders earlier ones.",
 ['histories','inputs'],"one put of several records into an arbitrary valid index object (induction over histories), all hash values, all indices below 2^40, mask sizes in the stated range",
 NOT+" The code itself is marked 'This NEEDS unit testing'.",[SUB+'bucket.go',MON+'fetch.go',SUN+'misc.go'],[('insert',SUB+'bucket.go PutRecordHashes'),('lookup',SUB+'bucket.go GetRecordHash'),('monitor lookup',MON+'fetch.go getIndexForHash'),('bucket naming',SUN+'misc.go KAnonHashPath')],observe=['int/hashes objects','get-proof-by-hash'])
p('C14','The dedupe index returns the first stored timestamp and index',
 "After any sequence of batches, looking a certificate fingerprint up in the dedupe index returns the leaf index and the full 64-bit timestamp of the first entry stored for it; fingerprints never stored are reported as not found. Adding records never drops, corrupts or reorders earlier ones.",
 ['histories','inputs'],"one put of several records into an arbitrary valid index object (induction over histories), all hashes, timestamps and indices, mask sizes in the stated range",
 NOT+" The code itself is marked 'This NEEDS unit testing'.",[SUB+'bucket.go',SUN+'misc.go'],[('insert',SUB+'bucket.go PutDedupeEntries'),('lookup',SUB+'bucket.go GetDedupeEntry')],observe=['int/dedupe objects','SCTs for duplicates'])
p('C15','Checkpoints are verifiable notes for exactly the tree they were made for',
 "A checkpoint produced for an origin, key, size, timestamp and root opens under the RFC 6962 note verifier of that origin and key and carries exactly that size and root; the verifier rejects it for any other size, root, timestamp or key, and rejects malformed signatures. Parsing accepts exactly the canonical checkpoint text: what parses formats back to the same bytes.",
 ['inputs'],"all sizes, timestamps, roots; all signature blobs and checkpoint texts up to the bound; ECDSA and RSA keys",NOT,[SUN+'checkpoint_ol.go'],[('signing',SUN+'checkpoint_ol.go SignTreeHeadCheckpoint'),('verifier',SUN+'checkpoint_ol.go NewRFC6962Verifier'),('parser',SUN+'checkpoint_ol.go ParseCheckpoint')],observe=['checkpoint object'])
p('C16','Tree head and checkpoint agree and are signed over what they state',
 "The signed tree head JSON carries size, timestamp and root whose RFC 6962 TreeHeadSignature structure its signature covers, under the log key. The signed tree head and the checkpoint stored in the same round state the same size and root, are labelled with the log's origin, and no tree head is dated before any entry it covers (given a clock that does not run backwards).",
 ['inputs','histories'],"all sizes, roots, timestamps; all clock readings that do not decrease",NOT,[SUN+'misc.go',SUN+'checkpoint_ol.go',SUB+'logic.go'],[('STH signing',SUN+'misc.go SignTreeHead'),('publication',SUB+'logic.go stageTwo')],observe=['ct/v1/get-sth','checkpoint'])
p('C17','get-entries returns a correct contiguous run of entries from start',
 "For any start and end, a successful get-entries answer contains the entries start, start+1, ... in order, without gaps, never past end or the end of the tree and never more than the configured maximum, each with the exact logged Merkle leaf and the exact submitted chain (with the precertificate first for precert entries). If start is inside the tree and storage works, at least one entry is returned (unless the storage request budget is exhausted).",
 ['inputs','histories','configurations'],"all start/end values, all tree sizes in the stated set, all entry contents, any storage request budget",
 NOT,[MON+'logic.go',MON+'fetch.go'],[('tile range and filtering',MON+'logic.go get_entries'),('full-then-partial tile fetch',MON+'fetch.go getTile')],observe=['get-entries response'])
p('C18','get-proof-by-hash answers with a verifying inclusion proof for that hash',
 "For every entry below a published tree size, asking for the proof of its leaf hash at that size succeeds and returns its index and an audit path that verifies under RFC 6962 against the root of that tree. No successful answer ever carries an index or path that does not verify for the requested hash, whatever is left over in storage from interrupted publications.",
 ['inputs','histories'],"all leaves and tree sizes in the stated sets, all hash values, tree sizes that were published and ones that were not",NOT,[MON+'logic.go',MON+'fetch.go'],[('index lookup',MON+'fetch.go getIndexForHash'),('proof from tiles',MON+'logic.go get_proof_by_hash, hashreader')],observe=['get-proof-by-hash response'])
p('C19','get-sth-consistency answers with a verifying consistency proof',
 "For every two published sizes first <= second a consistency proof is returned that verifies under RFC 6962 between the roots of those trees (empty when first is 0 or equals second). Sizes beyond the current tree, negative or reversed sizes are refused, and no successful answer carries a proof that does not verify.",
 ['inputs','histories'],"all pairs of sizes in the stated set, all tree contents",NOT,[MON+'logic.go'],[('proof from tiles',MON+'logic.go get_sth_consistency, hashreader')],observe=['get-sth-consistency response'])
p('C20','get-entry-and-proof returns the entry and a verifying proof for it',
 "For every leaf index below a published tree size the answer carries the exact logged Merkle leaf and extra data of that entry and an audit path that verifies for it against the root of that tree, including entries in the last, partially filled tile. Out-of-range indices and sizes are refused.",
 ['inputs','histories'],"all leaf indices and published tree sizes in the stated sets, all entry contents",NOT+" The upstream integration suite does not exercise this endpoint (its bias is 0).",[MON+'logic.go'],[('entry lookup and proof',MON+'logic.go get_entry_and_proof')],observe=['get-entry-and-proof response'])
p('C21','Malformed or out-of-range monitor requests are refused and never crash',
 "For every combination of missing, unparsable, negative, reversed, overflowing or out-of-tree parameters, each monitoring endpoint answers without panicking and without looping; malformed or out-of-range requests get an error status with no success body. A storage failure or missing object results in an error status, never in a success answer.",
 ['inputs','fault_sequences'],"all 64-bit parameter values, absent parameters, any failing storage read, empty and non-empty trees",NOT,[MON+'logic.go'],[('parameter validation',MON+'logic.go'),('error mapping',MON+'logic.go wrapper')],observe=['HTTP status and body'])
p('C22','get-sth and get-roots relay the stored documents unchanged',
 "The monitor's get-sth and get-roots answers are byte for byte the documents the submission side stored; when such a document cannot be read the answer is an error, never an empty or partial success. Each endpoint is reachable under its RFC 6962 path and method only.",
 ['inputs','fault_sequences'],"all document contents up to the bound, present/absent/failing",NOT,[MON+'logic.go',MON+'storage.go'],[('relay',MON+'logic.go get_sth, get_roots')],observe=['get-sth, get-roots responses'])
p('C23','Only well-formed submissions of the right kind reach the sequencer',
 "A submission reaches the sequencer only if its body parses, its chain is non-empty and validates to an accepted root with a leaf expiry inside the log's configured window, and its leaf matches the endpoint (certificates on add-chain, precertificates on add-pre-chain). All other submissions are refused with a 4xx/5xx answer, with no effect on the log; no request makes the handler panic, and a submission that is not sequenced in time is answered with 503 and Retry-After.",
 ['inputs','schedules'],"all bodies (malformed, empty chain, any validator verdict), both endpoints, any leaf kind",NOT,[SUB+'logic.go'],[('request checks',SUB+'logic.go stageZero'),('status mapping',SUB+'logic.go stageZeroWrapper')],observe=['HTTP status','sequencer input'])
p('C24','Filesystem storage writes are atomic and reads are exact',
 "On the filesystem backend a successful write makes a later read of that key return exactly those bytes (creating missing directories), leaves other keys untouched, and a key never written is reported as not existing. A crash or failure at any point of a write, or a concurrent read, leaves or observes either the complete old or the complete new contents, never a mixture, truncation or absence of an existing object.",
 ['crash_points','inputs','schedules'],"all keys and contents up to the bound, every crash point and failing system call inside a write",NOT,[SUB+'storage.go',MON+'storage.go'],[('file write',SUB+'storage.go FsStorage.Set'),('file read',SUB+'storage.go FsStorage.Get; '+MON+'storage.go FsStorage.Get')],observe=['files below the root directory'])
p('C25','Signature nonces are exactly RFC 6979 and never reused or biased',
 "The nonce of every signature is the first candidate of the RFC 6979 deterministic generator, seeded with the private key and the reduced message digest, that lies in [1, N-1]; it depends on nothing else. The same key and message always give the same signature.",
 ['inputs'],"all keys and digests (HMAC as an uninterpreted function), up to the stated number of rejected candidates, curves P-256, P-384 and P-521","The tests compare a handful of vectors and never force a rejected candidate through the whole generator for arbitrary keys.",['internal/rfc6979/ecdsa_ol.go'],[('DRBG',"internal/rfc6979/ecdsa_ol.go rfc6979DRBG"),('rejection sampling','internal/rfc6979/ecdsa_ol.go randomPoint')],observe=['signatures'])
p('C26','ECDSA signatures are well-formed and computed from the right scalars',
 "A signature is the minimal DER encoding of the positive integers r and s for every pair of scalars (leading zero bytes stripped, sign byte added when needed), where r is the x-coordinate of k*G modulo N and s = (e + r*d)/k modulo N, with e the left-most bits of the digest as SEC 1 requires for every digest length and curve. Zero r or s is never emitted.",
 ['inputs'],"all byte strings r, s up to 66 bytes, all digests up to 66 bytes, all scalars (field arithmetic as uninterpreted commutative operations)","The tests use a few vectors; DER edge cases (high bit, leading zeros) appear by chance only.",['internal/rfc6979/ecdsa_ol.go'],[('signing','internal/rfc6979/ecdsa_ol.go signNISTEC'),('DER','internal/rfc6979/ecdsa_ol.go encodeSignature'),('bits2int','internal/rfc6979/ecdsa_ol.go hashToNat, rightShift')],observe=['signatures'])
p('C27','Every chain certificate of a published entry is retrievable by fingerprint',
 "When a tree head covering an entry is stored, an issuer object exists for every chain fingerprint recorded in that entry, named by the SHA-256 of its contents and holding the exact certificate bytes that were submitted (or found during validation). Existing issuer objects are never overwritten with different contents.",
 ['fault_sequences','inputs'],"every batch of entries with shared and distinct chains, issuer objects already present or not, any failing storage operation",NOT,[SUB+'logic.go',SUB+'bucket.go'],[('issuer upload',SUB+'bucket.go SetIssuer, logic.go stageTwo')],observe=['issuer/<fingerprint> objects'])
p('C28','Nothing is read or served before leadership and the key check',
 "Starting the submission server touches the log's configuration, key and bucket only after the leader lock is held, terminates the process if the lock is lost, and refuses to start when the private key does not match the configured log ID or the configuration, tree head, roots or edge tiles cannot be read and verified.",
 ['fault_sequences','configurations'],"every failing start-up step, every configured log ID and key, every loss of the lock",NOT,[SUB+'config.go',SUB+'main.go'],[('lock, config, key and tree loading',SUB+'config.go LoadLog')],observe=['order of consul and bucket operations','start-up result'])
p('C29','The edge adapter maps storage answers and its request budget faithfully',
 "On the edge deployment the storage adapter returns an object's exact bytes on 200, reports not-found exactly for 404 and an error for every other outcome, answers repeated reads of a key identically, and never reports more remaining requests than its budget minus the requests made. Write methods are refused and unknown hosts or paths are answered 404 before any storage access.",
 ['inputs','fault_sequences'],"all backend statuses and cache-control headers up to the bound, all sequences of reads up to the bound, local and deployed mode",NOT,[MON+'fastly.go'],[('adapter',MON+'fastly.go FastlyStorage.Get, FastlyServe')],observe=['storage adapter results','HTTP status'])
p('C30','A freshly set-up log is a valid empty log that the server can start from',
 "Setting up a log stores the configuration, the accepted roots exactly as given and a correctly signed tree head of size 0 with the RFC 6962 empty-tree root, such that the submission server starts from it at index 0 and the monitor serves it. Set-up reports an error if any of these steps fails.",
 ['inputs','fault_sequences'],"all root lists up to the bound, every failing step",NOT,['internal/ctsetup/main.go',SUB+'config.go'],[('setup','internal/ctsetup/main.go')],observe=['config key','ct/v1/get-roots','ct/v1/get-sth'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
