From 9044ced04e3da5f68d20044e6ba9abed1469c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 01/20] fix: reject data tile entries whose fingerprint vector
 is not a multiple of 32 bytes

---
 internal/sunlight/tile_ol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/sunlight/tile_ol.go b/internal/sunlight/tile_ol.go
index 207d758..e88c674 100644
--- a/internal/sunlight/tile_ol.go
+++ b/internal/sunlight/tile_ol.go
@@ -174,6 +174,9 @@ func ReadTileLeaf(tile []byte) (e *LogEntry, rest []byte, err error) {
 	if !s.ReadUint16(&fingerprintBytes) {
 		return nil, s, fmt.Errorf("invalid data tile precert_entry")
 	}
+	if fingerprintBytes%32 != 0 {
+		return nil, s, fmt.Errorf("invalid data tile chain fingerprints length %d", fingerprintBytes)
+	}
 	var fingerprintCount = fingerprintBytes / 32
 	// then, try to read out that many fingerprints
 	e.ChainFp = make([][32]byte, 0, fingerprintCount)
-- 
2.43.0


From b825647aa19dd5519e34807e1dc7fc487ec3e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 02/20] fix: write filesystem objects atomically

---
 internal/ctsubmit/storage.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..2689587 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := writeFileAtomic(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,36 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return writeFileAtomic(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// writeFileAtomic writes to a temporary file in the same directory and renames it into place,
+// so that readers and crashes only ever see the old or the new contents.
+func writeFileAtomic(filePath string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From e4ee60c4ee2c2c78c6da8456a0076e6f541e3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 03/20] fix: never return more than the maximum number of
 entries from get-entries

---
 internal/ctmonitor/logic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..eeaf973 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -284,8 +284,8 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	// Limit the number of entries fetched at once
 	limit := int64(f.maxGetEntry)
-	if end-start > limit {
-		end = start + limit
+	if end-start >= limit {
+		end = start + limit - 1
 	}
 
 	sth, err := f.getSth(ctx)
-- 
2.43.0


From 3f8936123e7b0691e2655fd5a9d003a07e03b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 04/20] fix: refuse get-entries requests that start beyond the
 tree instead of panicking

---
 internal/ctmonitor/logic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index eeaf973..6e551bb 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -292,6 +292,10 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	// This also keeps the tile arithmetic below from overflowing
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is beyond the current sth")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From 8edd905aa2f714fb258df276a51390735e1fa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 05/20] fix: fetch the published width of the final data tile
 in get-entry-and-proof

---
 internal/ctmonitor/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 6e551bb..4c5c288 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -478,6 +478,12 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
 	tile.L = -1
 
+	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
+	// Special case the final tile to ensure we always fetch a tile that exists
+	if tile.N == sthFinalTile.N {
+		tile.W = sthFinalTile.W
+	}
+
 	// TODO: add a cache
 	data, err := f.getTile(ctx, tile)
 	if err != nil {
-- 
2.43.0


From 01faa6b80df1386efe26ac3e5f85bdb8329b560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 06/20] fix: check the leaf hash before answering
 get-proof-by-hash

---
 internal/ctmonitor/logic.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 4c5c288..7ef9173 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -228,6 +228,17 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The index can hold records of entries that were never published, so check that
+	// this is really the leaf at that index
+	leafHashes, err := hashreader(ctx, f, treeSize)([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		log.Println(err)
+		return nil, 511, err
+	}
+	if leafHashes[0] != tlog.Hash(hash) {
+		return nil, 404, fmt.Errorf("record not found")
+	}
+
 	// Get the proof
 	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
 	if err != nil {
-- 
2.43.0


From 0040aff500506044f46d58068a9ebb9dffd22234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 07/20] fix: time out submissions that cannot be handed to the
 sequencer

Sending to stage one blocked without limit when its queue was full, so those
submissions were never answered. Cover the send with the same five seconds.
---
 internal/ctsubmit/logic.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..32213d2 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -169,18 +169,24 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
+		// Nominally, this should complete in under 2 seconds.
+		timeout := time.After(5 * time.Second)
+
 		// Send the unsequenced entry to the first stage
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-timeout:
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting to be sequenced")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
 		case completeEntry = <-returnPath:
-		// Nominally, this should complete in under 2 seconds.
-		case <-time.After(5 * time.Second):
+		case <-timeout:
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
 		}
 	}
-- 
2.43.0


From 5625def59c427c066d8cd5ac2584c7836475862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 08/20] fix: refuse precertificates whose issuing CA is not in
 the chain

If an accepted root carries the CT poison, or the CT extended key usage and
signs a precertificate, the validated chain ends before the issuing CA and the
handler panicked with an index out of range.
---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 32213d2..4a578c2 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,8 +140,14 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("precertificate has no issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("precertificate signing certificate has no issuer")
+			}
 			preIssuer = chain[1]
 			issuer = chain[2]
 		}
-- 
2.43.0


From 6bec976350044f990073ae9a4f95ef4ea3d50996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 09/20] fix: do not take a failed duplicate check for a new
 certificate

Any error from reading the dedupe index, such as a storage timeout, was
treated as if the certificate had not been logged, so a resubmission was
added to the log again with another index and timestamp.
---
 internal/ctsubmit/bucket.go | 9 ++++++++-
 internal/ctsubmit/logic.go  | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/bucket.go b/internal/ctsubmit/bucket.go
index 8d19b97..cdaa098 100644
--- a/internal/ctsubmit/bucket.go
+++ b/internal/ctsubmit/bucket.go
@@ -304,9 +304,16 @@ func (b *Bucket) PutDedupeEntries(ctx context.Context, hashes []DedupeUpload, ma
 	return nil
 }
 
+// errRecordNotFound tells that there is no record, as opposed to a failure to look for it.
+var errRecordNotFound = errors.New("record not found")
+
 func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (DedupeUpload, error) {
 	f, err := b.S.Get(ctx, "int/dedupe/"+sunlight.KAnonHashPath(hash[:], mask))
 	if err != nil {
+		var notFound *s3types.NoSuchKey
+		if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) {
+			return DedupeUpload{}, errRecordNotFound
+		}
 		return DedupeUpload{}, err
 	}
 
@@ -321,5 +328,5 @@ func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (D
 			return record, nil
 		}
 	}
-	return DedupeUpload{}, errors.New("record not found")
+	return DedupeUpload{}, errRecordNotFound
 }
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 4a578c2..e93cb2d 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -169,6 +170,11 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	var completeEntry sunlight.LogEntry
 
+	if err != nil && !errors.Is(err, errRecordNotFound) {
+		// Without an answer, the certificate could end up in the log a second time
+		return nil, http.StatusInternalServerError, fmt.Errorf("unable to check for a duplicate: %w", err)
+	}
+
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
-- 
2.43.0


From 50aa9453ba2b2c83c2153cbf7e4fe6dc613cc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 10/20] fix: tell apart precertificates by issuing CA when
 looking for duplicates

A precertificate signing certificate with the same key and name can be issued
by several CAs. Resubmitting a precertificate under another one was answered
with an SCT over an entry (issuer key hash, TBS) that is not in the log.
---
 internal/ctsubmit/logic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index e93cb2d..7910fb7 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -12,6 +12,7 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"slices"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -161,6 +162,13 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 		entry.Certificate = tbsCertficiate
 		entry.IssuerKeyHash = sha256.Sum256(issuer.RawSubjectPublicKeyInfo)
+
+		// A precertificate signing certificate can be issued by several CAs, in which case
+		// the same precertificate stands for several entries. One of them must not be taken
+		// for a duplicate of another, as the SCT would not match the entry in the log.
+		if preIssuer != nil {
+			entry.CertificateFp = sha256.Sum256(slices.Concat(entry.CertificateFp[:], entry.IssuerKeyHash[:], entry.Certificate))
+		}
 	}
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
-- 
2.43.0


From 22377866470e55c10c8c8c857b0f9952c24fc925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 11/20] fix: verify the signature proper of RSA-signed
 checkpoints

The RFC 6962 note verifier handed the whole note signature, timestamp and
algorithm included, to rsa.VerifyPKCS1v15, so that no RSA signature verified.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From 947b6f6e1d1f702c6490669c2b6df1ca1c782ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 12/20] fix: accept only canonical root hashes in checkpoints

ParseCheckpoint accepted line breaks (\r) inside and stray bits at the end of
the base64 root hash, so that the text of a checkpoint could be altered
without the signature failing.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index c50b40f..ea73971 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -135,7 +135,7 @@ func ParseCheckpoint(text string) (Checkpoint, error) {
 	}
 
 	h, err := base64.StdEncoding.DecodeString(lines[2])
-	if err != nil || len(h) != tlog.HashSize {
+	if err != nil || len(h) != tlog.HashSize || lines[2] != base64.StdEncoding.EncodeToString(h) {
 		return Checkpoint{}, errors.New("malformed checkpoint")
 	}
 
-- 
2.43.0


From c80af72341852f906abbc3436b52a247041e9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 13/20] fix: refuse to start without a PEM block in the key
 file instead of panicking

---
 internal/ctsubmit/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..332406d 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -180,6 +180,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			return nil, fmt.Errorf("unable to read key: %v", err)
 		}
 		keyBlock, _ := pem.Decode(keyPEM)
+		if keyBlock == nil {
+			return nil, fmt.Errorf("unable to parse key: no PEM block in %s", gc.KeyPath)
+		}
 
 		key, err = x509.ParseECPrivateKey(keyBlock.Bytes)
 		if err != nil {
-- 
2.43.0


From 9a36b1436ab053c26484df61dfa6ff4bef31122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 14/20] fix: refuse to start from a tree head the log has not
 signed

---
 internal/ctsubmit/config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 332406d..0cf9866 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -235,6 +235,16 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
 		}
+
+		// Only continue from a tree head that this log has signed
+		sthInput, err := ct.SerializeSTHSignatureInput(sth)
+		if err != nil {
+			return nil, fmt.Errorf("unable to serialize STH: %v", err)
+		}
+		sthDigest := sha256.Sum256(sthInput)
+		if !ecdsa.VerifyASN1(&key.PublicKey, sthDigest[:], sth.TreeHeadSignature.Signature) {
+			return nil, fmt.Errorf("STH signature does not verify")
+		}
 	}
 
 	// Stage zero setup
-- 
2.43.0


From 5e78a0b7b6d6f0207c0a563ea714ba868e3ac547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 15/20] fix: verify the data tile against the level zero tile
 at start-up

---
 internal/ctsubmit/config.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 0cf9866..9f81813 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -1,6 +1,7 @@
 package ctsubmit
 
 import (
+	"bytes"
 	"context"
 	"crypto/ecdsa"
 	"crypto/sha256"
@@ -374,7 +375,23 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			dataTile.Bytes = dataTileBytes
 			edgeTiles[-1] = dataTile
 
-			// TODO: verify the data tile against the L0 tile
+			// Verify the data tile against the level zero tile
+			levelZero := edgeTiles[0]
+			for i := 0; i < levelZero.W; i++ {
+				entry, rest, err := sunlight.ReadTileLeaf(dataTileBytes)
+				if err != nil {
+					return nil, fmt.Errorf("unable to parse data tile: %v", err)
+				}
+				dataTileBytes = rest
+
+				hash := tlog.RecordHash(entry.MerkleTreeLeaf())
+				if !bytes.Equal(hash[:], levelZero.Bytes[i*tlog.HashSize:(i+1)*tlog.HashSize]) {
+					return nil, fmt.Errorf("entry %d of the data tile does not match the level zero tile", i)
+				}
+			}
+			if len(dataTileBytes) != 0 {
+				return nil, fmt.Errorf("data tile has %d bytes too many", len(dataTileBytes))
+			}
 		}
 
 		stageTwo = stageTwoData{
-- 
2.43.0


From 53cd0d274f75b7b15fc4fef2f82616b2ddebf473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 16/20] fix: report a missing object as not found when the edge
 service runs locally

---
 internal/ctmonitor/fastly.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index 75c3c5b..bf54eb5 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -206,12 +206,9 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 	} else {
 		entry, err := cacheFunc()
 		if err != nil {
-			return nil, false, err
+			return nil, notFound, err
 		}
 		reader = entry.Body
-		if notFound {
-			return nil, true, errors.New("not found")
-		}
 	}
 
 	body, err := io.ReadAll(reader)
-- 
2.43.0


From 5deba238524b68cb3cd45f907601ee8b1d11d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 17/20] fix: remember objects answered by the edge cache for
 the rest of the request

---
 internal/ctmonitor/fastly.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index bf54eb5..c2a3773 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -216,5 +216,11 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 		return nil, false, err
 	}
 
+	// Also remember what the edge cache answered, so that the request sees one version of an object
+	f.cache[key] = &CacheEntry{
+		status: fsthttp.StatusOK,
+		body:   body,
+	}
+
 	return body, false, nil
 }
-- 
2.43.0


From 3eaa296df95478a6cf43f7f56b63ff21e7155973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 18/20] fix: check the error of building a backend request
 before using the request

---
 internal/ctmonitor/fastly.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index c2a3773..2e9906e 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -127,12 +127,12 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 		f.requests++
 
 		req, err := fsthttp.NewRequest("GET", url, nil)
-		req.CacheOptions = fsthttp.CacheOptions{
-			Pass: true,
-		}
 		if err != nil {
 			return simple.CacheEntry{}, err
 		}
+		req.CacheOptions = fsthttp.CacheOptions{
+			Pass: true,
+		}
 		resp, err := req.Send(ctx, f.backend)
 		if err != nil {
 			return simple.CacheEntry{}, err
-- 
2.43.0


From e09a123161174ddd103dc4a1d1bf2777f3b88268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 19/20] fix: start with accepted roots that have only tolerable
 parse errors

---
 internal/ctsubmit/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 9f81813..c3cff88 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -275,8 +275,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		// iterate over the certificates and add them to the pool
 		r := x509util.NewPEMCertPool()
 		for _, certBytes := range res.Certificates {
+			// As in set-up and when validating chains, errors that are not fatal are tolerated
 			cert, err := x509.ParseCertificate(certBytes)
-			if err != nil {
+			if x509.IsFatal(err) {
 				return nil, fmt.Errorf("unable to parse certificate: %v", err)
 			}
 			r.AddCert(cert)
-- 
2.43.0


From eb26d2b60469503f879622942dde3de177cf71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 20/20] fix: report a key file without a PEM block when setting
 up a log instead of panicking

---
 internal/ctsetup/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..6767fe2 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"encoding/json"
 	"encoding/pem"
+	"fmt"
 	"log"
 	"os"
 	"time"
@@ -96,6 +97,9 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		return err
 	}
 	keyBlock, _ := pem.Decode(keyPEM)
+	if keyBlock == nil {
+		return fmt.Errorf("no PEM block in %s", signingKey)
+	}
 
 	// keyDecrypted, err := x509.DecryptPEMBlock(keyBlock, []byte("dirk"))
 	// if err != nil {
-- 
2.43.0

