// uses: merkle, names, handlers, jsonleaf
//@type pb.Mutation
//@type pb.LogAddEntryRequest
// A map mutation request: what it may queue
pub open spec fn acceptable(m: Option<pb_MapMutation>) -> bool { m is Some && (if m->0.Action == lit!("delete") { true } else { (m->0.Action == lit!("set") || m->0.Action == lit!("update")) && m->0.Value is Some }) }
pub open spec fn stamped(m: pb_MapMutation, t: Seq<u8>) -> pb_MapMutation { pb_MapMutation { Timestamp: t, ..m } }
pub open spec fn map_add(map: pb_MapRef, m: pb_MapMutation) -> pb_Mutation {
    pb_Mutation { Namespace: Seq::empty(), LogAddEntry: Some(pb_LogAddEntryRequest { Log: Some(pb_LogRef { Account: map.Account, Name: map.Name, LogType: 1 }), Value: Some(mutation_leaf(m)) }) }
}
pub open spec fn set_gate(ev: Seq<Ev>, m: Option<pb_MapRef>, err: GoErr) -> bool {
    if !map_known(m) { ev.len() == 0 && err == GoErr::Status(7) }
    else { asked(ev, m->0.Account->0.Id, m->0.Account->0.ApiKey, m->0.Name, 12) && (!granted(ev) ==> err == GoErr::Status(7)) }
}
pub open spec fn queued_at(ev: Seq<Ev>, map: pb_MapRef, m: pb_MapMutation, t: Seq<u8>) -> bool { ev[1] == Ev::Queue(map_ns(map.Account->0.Id, map.Name), Some(map_add(map, stamped(m, t)))) }
// what is queued decodes to a mutation that is just as acceptable
pub proof fn accepted_decodes(map: pb_MapRef, m: pb_MapMutation, t: Seq<u8>)
    requires json_exact(), acceptable(Some(m))
    ensures ({ let x = map_add(map, stamped(m, t)).LogAddEntry->0.Value->0.ExtraData; json_valid_Option_pb_MapMutation_(x) && json_dec_Option_pb_MapMutation_(x) == Some(stamped(m, t)) && acceptable(json_dec_Option_pb_MapMutation_(x)) })
{ }
