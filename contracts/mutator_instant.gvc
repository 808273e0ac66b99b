package mutator/instant
uses merkle, keys, kv, queue
ghost $apply Seq<Ap>
ghost $txs Seq<Tx>

// the record of a call of ApplyMutation, whatever it does
calls verifiable.ApplyMutation(ctx, kw, size, mut) (n, err)
  modifies kw, $apply, $fault
  ensures $apply == old($apply).push(Ap { before: old(kw), size: size, mut_: mut, after: kw, next: n, err: err })

// one update transaction on the namespace: read the size, apply once from it, record the new size with the data
func Mutator.QueueMutation(m, ctx, ns, mut) (err)
  requires m is Some && m->0.Writer is Some && $apply.len() == 0 && $txs.len() == 0
  modifies $apply, $txs, $fault, $ev
  ensures [atomic] $txs.len() <= 1 && ($txs.len() == 1 ==> $txs[0].upd && $txs[0].ns == ns) && (err == GoErr::Nil ==> $txs.len() == 1 && $txs[0].ok)
  ensures [once] $apply.len() <= $txs.len() && (err == GoErr::Nil ==> $apply.len() == 1)
  ensures [given] $apply.len() == 1 ==> $apply[0].mut_ == mut && $apply[0].before == $txs[0].before && ((stored($txs[0].before, K::Size) ==> rec($txs[0].before, K::Size) is ObjectSize) ==> $apply[0].size == size_of($txs[0].before))
  ensures [recorded] err == GoErr::Nil ==> $apply[0].err == GoErr::Nil && $txs[0].after == (if $apply[0].next != $apply[0].size { $apply[0].after.insert(enc(K::Size), PVal::ObjectSize(pb_ObjectSize { Size: $apply[0].next })) } else { $apply[0].after })
  ensures [failed] $apply.len() == 1 && $apply[0].err != GoErr::Nil ==> err == $apply[0].err && $txs[0].after == $apply[0].after && !$txs[0].ok
