// uses: merkle, names
//@type pb.LogRef
//@type pb.MapRef
// The permission documented for an operation on a kind of log: op 1 raw add, 2 read entries, 3 read hashes, 4 prove inclusion; 0 when there is none.
pub open spec fn log_perm(lt: int, op: int) -> int {
    if lt == 0 { if op == 1 { 8 } else if op == 2 { 9 } else if op == 3 { 10 } else if op == 4 { 11 } else { 0 } }
    else if lt == 1 { if op == 2 { 14 } else if op == 3 || op == 4 { 15 } else { 0 } }
    else if lt == 2 { if op == 2 || op == 3 || op == 4 { 15 } else { 0 } }
    else { 0 }
}
// a log the policy can be asked about for an operation
pub open spec fn log_known(log: Option<pb_LogRef>, op: int) -> bool { log is Some && log->0.Account is Some && log_perm(log->0.LogType, op) != 0 }
pub open spec fn map_known(m: Option<pb_MapRef>) -> bool { m is Some && m->0.Account is Some }
// the policy was asked first, with exactly these, and if it refused that was all
pub open spec fn asked(ev: Seq<Ev>, acct: Seq<u8>, key: Seq<u8>, name: Seq<u8>, perm: int) -> bool
{ ev.len() >= 1 && ev[0] is Auth && ev[0]->Auth_0.acct == acct && ev[0]->Auth_0.apikey == key && ev[0]->Auth_0.name == name && ev[0]->Auth_0.perm == perm && (!ev[0]->Auth_0.ok ==> ev.len() == 1) }
pub open spec fn granted(ev: Seq<Ev>) -> bool { ev.len() >= 1 && ev[0] is Auth && ev[0]->Auth_0.ok }
pub open spec fn filter_of(ev: Seq<Ev>) -> Seq<u8> { ev[0]->Auth_0.filter }
// nothing but reads of one namespace after the first event
pub open spec fn only_reads(ev: Seq<Ev>, ns: Seq<u8>) -> bool { forall|i: int| 1 <= i < ev.len() ==> #[trigger] ev[i] == Ev::Read(ns) }
// a read operation on a log goes to the policy first
pub open spec fn log_read_gate(ev: Seq<Ev>, log: Option<pb_LogRef>, op: int, err: GoErr) -> bool {
    if !log_known(log, op) { ev.len() == 0 && err == GoErr::Status(7) }
    else { asked(ev, log->0.Account->0.Id, log->0.Account->0.ApiKey, log->0.Name, log_perm(log->0.LogType, op)) && (!granted(ev) ==> err == GoErr::Status(7))
        && only_reads(ev, ref_ns(log->0.Account->0.Id, log->0.Name, log->0.LogType)) }
}
pub open spec fn log_hashable(log: pb_LogRef) -> bool { ref_ns_ok(log.Account->0.Id, log.Name, log.LogType) }
