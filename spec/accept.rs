// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset, maplook, names, handlers, filter, jsonleaf, setvalue, lockstep
// A queued mutation can be applied.
// assumed of encoding/json: what was written from a mutation is read back as that mutation
pub open spec fn json_exact_msg() -> bool { forall|m: pb_MapMutation| #[trigger] json_valid_pb_MapMutation(json_enc_pb_MapMutation(m)) && json_dec_pb_MapMutation(json_enc_pb_MapMutation(m)) == m }
// the shape ApplyMutation asks for, and what makes it succeed when storage does
pub open spec fn can_apply(q: Option<pb_LogAddEntryRequest>) -> bool {
    q is Some && q->0.Log is Some && q->0.Value is Some && valid_lt(q->0.Log->0.LogType)
    && (q->0.Log->0.LogType == 1 ==> json_valid_pb_MapMutation(q->0.Value->0.ExtraData) && appliable(json_dec_pb_MapMutation(q->0.Value->0.ExtraData)) && formed(json_dec_pb_MapMutation(q->0.Value->0.ExtraData)))
}
// a map mutation accepted for queueing
pub proof fn accepted_map(map: pb_MapRef, m: pb_MapMutation, t: Seq<u8>)
    requires json_exact_msg(), acceptable(Some(m))
    ensures can_apply(map_add(map, stamped(m, t)).LogAddEntry)
{ lit_lemma!("set"); lit_lemma!("delete"); lit_lemma!("update"); }
// a log entry accepted for queueing
pub proof fn accepted_log(q: pb_LogAddEntryRequest)
    requires q.Log is Some, q.Log->0.LogType == 0, q.Value is Some
    ensures can_apply(Some(q))
{ }
