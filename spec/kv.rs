// What a message passed to be filled in was filled from: nothing, these bytes, or another store.
#[verifier::ext_equal]
pub ghost enum Out { None, Bytes(Seq<u8>, GoErr), Asked(Option<GAny>, Seq<u8>, GoErr) }
// State of a lock as the running goroutine sees it.
pub ghost enum Lk { Free, Shared, Excl }
// A storage transaction whose function has run: the namespace, what it read, what it left, whether it counts.
#[verifier::ext_equal]
pub ghost struct Tx { pub ns: Seq<u8>, pub upd: bool, pub before: Db, pub after: Db, pub ok: bool }
//@fn msg_enc (x: GAny) -> Seq<u8>
//@fn pval_any (x: GAny) -> PVal
// A goroutine that was started: what it runs, and on which object.
#[verifier::ext_equal]
pub ghost struct Spawn { pub f: Seq<u8>, pub on: Option<GAny> }
