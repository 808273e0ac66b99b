From 4e0363df8ce219cc9005a41be3325b41db1cec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 01/22] fix: CalcK no longer loops forever for sizes above 2^62

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..1c0944d 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < 1<<62 && (k<<1) < n {
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From aa96d09ee9318f245936eecbd8398044896671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 02/22] fix: inclusion proof verification rejects surplus path
 elements and elements that are not hashes

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..9924dea 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -142,6 +142,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 || len(p) != 32 { // too many elements, or not a hash
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From cc408fa44ac245dfd601d0ec4fe2a3eb3e658301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 03/22] fix: consistency proof verification rejects path
 elements that are not hashes

---
 verifiable/service_log_consistency_proof.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index 8c46eb0..3833bde 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -118,6 +118,12 @@ func VerifyLogConsistencyProof(self *pb.LogConsistencyProofResponse, first, seco
 		return ErrVerificationFailed
 	}
 
+	for _, p := range self.AuditPath {
+		if len(p) != 32 { // must be a hash, else an element boundary could be shifted
+			return ErrVerificationFailed
+		}
+	}
+
 	var proof [][]byte
 	if merkle.IsPow2(self.FromSize) {
 		proof = make([][]byte, 1+len(self.AuditPath))
-- 
2.43.0


From a70471e82d8ec30e0797e19edfd488743b8518cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 04/22] fix: map inclusion proof verification rejects malformed
 responses instead of panicking

---
 verifiable/service_map_get_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..73bc172 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.MutationLog.GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
-- 
2.43.0


From 35f065469c64bd154bd2bfc84d486846220c09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:24 +0000
Subject: [PATCH 05/22] fix: check the shape of the starting stack when
 auditing a log from an earlier head

VerifyEntries trusted the number and size of the subtree hashes returned for
the earlier head, so a server could make it panic or start from a stack that
does not correspond to that head.
---
 verifiable/api_highlevel_log.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..4efb8dd 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -18,6 +18,7 @@ package verifiable
 
 import (
 	"bytes"
+	"math/bits"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -206,8 +207,16 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// The path must consist of exactly the complete subtrees that make up the previous tree, since
+		// it becomes our starting stack. There's one for each bit set in the previous tree size.
+		if len(p.AuditPath) != bits.OnesCount64(uint64(prev.TreeSize)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
+			if len(b) != 32 {
+				return ErrVerificationFailed
+			}
 			if firstHash == nil {
 				firstHash = b
 			} else {
-- 
2.43.0


From 9dd483a0f5a969a1179c51e22f7395adcc5088bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 06/22] fix: reject absent entries and JSON null instead of
 crashing when validating leaf data

---
 verifiable/util_json.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..51a174a 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -116,7 +116,7 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	var o interface{}
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
@@ -124,7 +124,7 @@ func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 	return nil
@@ -183,10 +183,13 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
+	if o == nil { // JSON null
+		return ErrVerificationFailed
+	}
 	if o.Value != nil {
 		o.Value.ExtraData = nil
 		o.Value.Format = 0
@@ -206,7 +209,7 @@ func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 
-- 
2.43.0


From ca68b0e95ffa3aa4254407db574dfc754302af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 07/22] fix: compare each mutation with the map root just
 before it when auditing a map

The remembered root was not updated after a mutation for which the audit
function was called, so later mutations that change nothing were reported and
one that restores the remembered root was not.
---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..79a7b89 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From 51334cf280a1a546abf7797c8b5a5f18183fdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 08/22] fix: fail a map audit on malformed tree heads and
 mutations instead of crashing

---
 verifiable/util_map_audit.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 79a7b89..c6dfc5e 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,11 +154,17 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
+		if mut.Value == nil {
+			return nil, ErrVerificationFailed
+		}
 		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
+			if mut.Value == nil {
+				return nil, ErrVerificationFailed
+			}
 			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
 		}
 	default:
@@ -304,6 +310,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// Size 1 is the first meaningful
+	if mth.MutationLog.GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From fe29ff6c49d22c5cfbdd43e70c9aece8231e5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 09/22] fix: carry the mutation that ends a batch over to the
 next one

When a batch ended at a mutation for another namespace, the first mutation of
the batch was queued again and the one for the other namespace was lost.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 4dedb17bc0a686f2e7603c978a81c201ab291e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 10/22] fix: make a delete inside a batch visible to later
 reads of that batch

---
 mutator/batch/mutator_batch.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..3fef2c5 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -91,6 +91,9 @@ func (m *mapNoLockDB) Get(ctx context.Context, key []byte, value proto.Message)
 	k := hex.EncodeToString(key)
 	b, ok := m.M[k]
 	if ok {
+		if b == nil { // deleted
+			return verifiable.ErrNoSuchKey
+		}
 		return proto.Unmarshal(b, value)
 	}
 	return m.Parent.Get(ctx, key, value)
@@ -100,11 +103,18 @@ func (m *mapNoLockDB) Get(ctx context.Context, key []byte, value proto.Message)
 // It must return nil, ErrNoSuchKey if none found
 func (m *mapNoLockDB) Set(ctx context.Context, key []byte, value proto.Message) error {
 	k := hex.EncodeToString(key)
-	b, err := proto.Marshal(value)
-	if err != nil {
-		return err
+	if value == nil {
+		m.M[k] = nil
+	} else {
+		b, err := proto.Marshal(value)
+		if err != nil {
+			return err
+		}
+		if b == nil { // an empty message, as distinct from deleted
+			b = []byte{}
+		}
+		m.M[k] = b
 	}
-	m.M[k] = b
 	m.L = append(m.L, &op{
 		Key:   key,
 		Value: value,
-- 
2.43.0


From fdcdce288ed97fc6747dd945c832a06e5b6c229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 11/22] fix: report badger read faults as such, not as a
 missing key

---
 storage/badger/storage_badger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..22f0d0e 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,8 +129,13 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	switch err {
+	case nil:
+		// good, continue
+	case badger.ErrKeyNotFound:
 		return verifiable.ErrNoSuchKey
+	default:
+		return err
 	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
-- 
2.43.0


From bca66798c1fb5b26df26a3a2ac98ba40874d14f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 12/22] fix: do not crash when filtering a mutation that
 carries no value

---
 verifiable/util_permissions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..f5aac81 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -75,6 +75,11 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// No data, e.g. the value of a delete mutation, so nothing to filter
+	if ld == nil {
+		return nil, nil
+	}
+
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 7e88fda36ce80a9d16e89b80670cbe94f4aefa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 13/22] fix: refuse requests without the parts an operation
 needs instead of crashing

An absent log, map or account reference, an absent value or mutation, an
unknown map action or a read-only service crashed the caller, or was queued
and then crashed whoever applied it.
---
 verifiable/service_log_add_entry.go |  8 ++++++++
 verifiable/service_map_set_value.go | 16 ++++++++++++++++
 verifiable/util_permissions.go      |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..c6e6c44 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,14 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "no value")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.Unimplemented, "read-only service")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..e448b24 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -51,6 +51,22 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	// Don't accept what can't be applied later
+	switch req.Mutation.GetAction() {
+	case "set", "update":
+		if req.Mutation.Value == nil {
+			return nil, status.Errorf(codes.InvalidArgument, "no value")
+		}
+	case "delete":
+		// good, no value needed
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "unknown action")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.Unimplemented, "read-only service")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index f5aac81..6733918 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,6 +55,9 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil { // no such object
+		return nil, ErrNotAuthorized
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
@@ -63,6 +66,9 @@ func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRe
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
+	if log.GetAccount() == nil { // no such object
+		return nil, ErrNotAuthorized
+	}
 	perm, ok := operationForLogType[log.LogType][op]
 	if !ok {
 		return nil, ErrNotAuthorized
-- 
2.43.0


From a81cc076ce91ba1092748ba584e597eea2725ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 14/22] fix: serve the head of an empty map

Asking for the head of a map without mutations failed on the missing root hash
of its mutation log, although VerifiedMapState relies on getting one.
---
 verifiable/service_map_tree_hash.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..d1bd648 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -57,9 +57,12 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		}
 
 		// Need this for response
-		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
-		if err != nil {
-			return err
+		mutHead := &pb.LogTreeHash{}
+		if treeSize != 0 { // nothing is recorded for an empty log
+			mutHead, err = lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Get the root node for tree size
@@ -87,6 +90,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From ee6cbfbe85b499503f5979a23e7afdb29dadcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 15/22] fix: ignore negative proof indices in REST responses
 instead of crashing

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From c9d86dc107e90c1079a7bec8aa4de6af4724cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 16/22] fix: keep a REST map update with an empty previous leaf
 hash conditional

---
 server/httprest/server_http_handler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..87241dc 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -640,6 +640,8 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 }
 
 func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[string]string, w http.ResponseWriter, r *http.Request) {
+	// Present but empty is still an update (and one that never applies), not an unconditional set
+	_, isUpdate := r.Header[http.CanonicalHeaderKey("X-Previous-LeafHash")]
 	prevLeafHashString := strings.TrimSpace(r.Header.Get("X-Previous-LeafHash"))
 	var prevLeafHash []byte
 	if len(prevLeafHashString) > 0 {
@@ -664,13 +666,13 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if !isUpdate {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
 			Value:  ld,
 		}, w, r)
-	} else { // must be an update
+	} else {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action:           "update",
 			Key:              key,
-- 
2.43.0


From 0baec8cb759e1fdf6bac7bc9b50d82f0dbe7a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 17/22] fix: do not send REST requests for names that the paths
 cannot carry

A log name such as ../map/x/log/mutation was sent as is, and answered as a
request for that other log.
---
 server/httprest/client_http_rest.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 5427b01..4151ece 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"log"
 	"net/http"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -66,7 +67,16 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 
 type httpRestImpl Client
 
+// The paths served for accounts and objects only admit these, anything else could be taken for another path.
+var (
+	accountPattern = regexp.MustCompile("^[0-9]+$")
+	namePattern    = regexp.MustCompile("^[0-9a-z-_]+$")
+)
+
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if !accountPattern.MatchString(log.GetAccount().GetId()) || !namePattern.MatchString(log.GetName()) {
+		return nil, nil, verifiable.ErrInvalidRequest
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +92,9 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if !accountPattern.MatchString(vmap.GetAccount().GetId()) || !namePattern.MatchString(vmap.GetName()) {
+		return nil, nil, verifiable.ErrInvalidRequest
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
@@ -218,7 +231,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 
 // MapSetValue sets a value in the map
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
-	switch req.Mutation.Action {
+	switch req.Mutation.GetAction() {
 	case "delete":
 		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
-- 
2.43.0


From 9d436c1e008d8c2ccc87a76eface58de73b676fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 18/22] fix: accept API keys that contain a space over REST

---
 server/httprest/server_http_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 87241dc..4c1a5b0 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -189,7 +189,7 @@ func staticHandler(logger *log.Logger, mime, name string) func(http.ResponseWrit
 }
 
 func apiKeyFromRequest(r *http.Request) string {
-	headerParts := strings.Split(strings.TrimSpace(r.Header.Get("Authorization")), " ")
+	headerParts := strings.SplitN(strings.TrimSpace(r.Header.Get("Authorization")), " ", 2)
 	if len(headerParts) == 2 {
 		if headerParts[0] == "Key" {
 			return headerParts[1]
-- 
2.43.0


From c2ceaf1e050bd67ecfeb6dea756f0913b39999e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 19/22] fix: look for the map head's leaf hash, not its leaf
 input, in the tree head log

---
 verifiable/api_highlevel_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..c5e7322 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -136,7 +136,7 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		if err != nil {
 			return nil, err
 		}
-		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, lh.LeafInput)
+		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, merkle.LeafHash(lh.LeafInput))
 		if err == nil {
 			verifiedInTreeHeadLog = true
 			thlth = prevThlth
-- 
2.43.0


From 05bb55e82c40ce071e67b8c7a4c8c78f14ea3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 20/22] fix: answer malformed REST requests with 400 and absent
 entries with 404, not 500

---
 server/httprest/server_http_handler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 4c1a5b0..a3345ba 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -286,7 +286,14 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 
 	s, ok := status.FromError(err)
 	if !ok {
-		w.WriteHeader(http.StatusInternalServerError)
+		switch err {
+		case verifiable.ErrInvalidRequest:
+			w.WriteHeader(http.StatusBadRequest)
+		case verifiable.ErrNotFound:
+			w.WriteHeader(http.StatusNotFound)
+		default:
+			w.WriteHeader(http.StatusInternalServerError)
+		}
 		return
 	}
 
-- 
2.43.0


From da570553ffa4cd163a7369b6f907a1cf232c2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 21/22] fix: BlockUntilSize reports a map head without a
 mutation log head as an error

---
 verifiable/api_highlevel_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index c5e7322..23b1b89 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -51,6 +51,9 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 		if err != nil {
 			return nil, err
 		}
+		if lth.MutationLog == nil {
+			return nil, ErrVerificationFailed
+		}
 		if lth.MutationLog.TreeSize >= treeSize {
 			return lth, nil
 		}
-- 
2.43.0


From 013fe6f3db4e6c2a699b7e86b80d902fb917e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 22/22] fix: postgres: one transaction at a time on the
 connection

All transactions of a Storage share one connection, which carries only one at a
time: a second begin joins the transaction under way, and its rollback undoes
what the first wrote while that one still reports success. Simultaneous use
also makes pgx close the connection.
---
 storage/postgres/storage-postgres.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..683a308 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -18,6 +18,9 @@ import (
 type Storage struct {
 	Pool *pgxpool.Conn
 
+	// A connection carries one transaction at a time, so this is held throughout each
+	txMutex sync.Mutex
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -112,6 +115,9 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 // ExecuteReadOnly executes a read only query. Note this will have the side-effect of
 // creating a table for this namespace, if it doesn't already exist.
 func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
+	pgs.txMutex.Lock()
+	defer pgs.txMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
@@ -132,6 +138,9 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 // ExecuteUpdate executes an update query. Only one of these can execute per-namespace
 // at once, and this is enforced by a full table lock.
 func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
+	pgs.txMutex.Lock()
+	defer pgs.txMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
-- 
2.43.0

