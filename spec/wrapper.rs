// uses: rpc
//@type verifiable.logAddPromise
//@type verifiable.mapSetPromise
//@type verifiable.Account
//@type verifiable.Map
//@type verifiable.Log
pub open spec fn asked_once(a: Seq<Rpc>, b: Seq<Rpc>) -> bool { b.len() == a.len() + 1 && b =~= a.push(b.last()) }
