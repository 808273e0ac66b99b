// uses: merkle, logtree, smt, jsonleaf
//@type pb.LogInclusionProofResponse
//@type pb.LogConsistencyProofResponse
//@type pb.LogTreeHashResponse
//@type pb.MapTreeHashResponse
//@type pb.MapGetValueResponse
// What an accepted proof is
pub open spec fn inc_valid(p: Option<pb_LogInclusionProofResponse>, leaf: Seq<u8>, h: pb_LogTreeHashResponse) -> bool {
    p is Some && p->0.TreeSize == h.TreeSize && 0 <= p->0.LeafIndex && p->0.LeafIndex < h.TreeSize && hashes(p->0.AuditPath) && h.RootHash.len() == 32
    && inc_fold(p->0.LeafIndex as int, h.TreeSize as int, p->0.AuditPath, leaf) == Some(h.RootHash)
}
pub open spec fn cons_valid(p: Option<pb_LogConsistencyProofResponse>, a: pb_LogTreeHashResponse, b: pb_LogTreeHashResponse) -> bool {
    p is Some && p->0.FromSize == a.TreeSize && p->0.TreeSize == b.TreeSize && 0 < a.TreeSize && a.TreeSize < b.TreeSize && hashes(p->0.AuditPath)
    && a.RootHash.len() == 32 && b.RootHash.len() == 32
    && cons_fold(a.TreeSize as int, b.TreeSize as int, p->0.AuditPath, true, a.RootHash) == Some((a.RootHash, b.RootHash))
}
pub open spec fn get_valid(p: Option<pb_MapGetValueResponse>, key: Seq<u8>, h: pb_MapTreeHashResponse) -> bool {
    p is Some && p->0.TreeSize == (if h.MutationLog is Some { h.MutationLog->0.TreeSize } else { 0 }) && p->0.AuditPath.len() == 256
    && map_up(pbits(sha(key)), p->0.AuditPath, 256, leaf_hash(if p->0.Value is Some { p->0.Value->0.LeafInput } else { Seq::<u8>::empty() })) == h.RootHash
}
pub open spec fn included(leaf: Seq<u8>, h: pb_LogTreeHashResponse) -> bool { exists|p: Option<pb_LogInclusionProofResponse>| #[trigger] inc_valid(p, leaf, h) }
pub open spec fn extends(a: pb_LogTreeHashResponse, b: pb_LogTreeHashResponse) -> bool { exists|p: Option<pb_LogConsistencyProofResponse>| #[trigger] cons_valid(p, a, b) }
pub open spec fn got(v: Option<pb_LeafData>, key: Seq<u8>, h: pb_MapTreeHashResponse) -> bool { exists|p: Option<pb_MapGetValueResponse>| #[trigger] get_valid(p, key, h) && p->0.Value == v }
// Two heads that belong to one history: equal, or one proved to extend the other
pub open spec fn consistent(a: Option<pb_LogTreeHashResponse>, b: Option<pb_LogTreeHashResponse>) -> bool {
    a is Some && b is Some && a->0.TreeSize > 0 && b->0.TreeSize > 0
    && (a->0.TreeSize == b->0.TreeSize ==> a->0.RootHash == b->0.RootHash)
    && (a->0.TreeSize < b->0.TreeSize ==> extends(a->0, b->0)) && (b->0.TreeSize < a->0.TreeSize ==> extends(b->0, a->0))
}
//@fn box_Option_pb_MapTreeHashResponse_ (x: Option<pb_MapTreeHashResponse>) -> Option<GAny>
// the tree-head-log leaf that records a map head
pub open spec fn head_leaf_hash(m: Option<pb_MapTreeHashResponse>) -> Seq<u8> { leaf_hash(jhash(json_enc_Option_GAny_(box_Option_pb_MapTreeHashResponse_(m)))) }
pub open spec fn head_included(m: Option<pb_MapTreeHashResponse>, h: pb_LogTreeHashResponse) -> bool { included(head_leaf_hash(m), h) }
