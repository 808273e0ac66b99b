package verifiable
uses merkle, logtree, stack, smt, rpc, audit
ghost $rpc Seq<Rpc>

// any stream at all: nothing is assumed of what the server sends
extern verifiable.Log.Entries(log, ctx, start, end) (r)

calls pb.VerifiableDataStructuresServiceServer.LogInclusionProof(s, ctx, q) (r, err)
  modifies $rpc
  ensures err == GoErr::Nil ==> r is Some
  ensures $rpc == old($rpc).push(Rpc::Inclusion(q, r, err))

func Log.VerifyEntries(log, ctx, prev, head, auditFunc) (err)
  requires log is Some && log->0.Service is Some
  let BASE = (if prev is Some && prev->0.TreeSize > 0 { prev->0.TreeSize } else { 0 })
  let ROOT = (if prev is Some { prev->0.RootHash } else { Seq::<u8>::empty() })
  let RAN = (head is Some && head->0.TreeSize >= 1 && (prev is Some ==> head->0.TreeSize > prev->0.TreeSize))
  requires head is Some ==> head->0.TreeSize < 0x4000_0000_0000_0000
  modifies $calls_auditFunc, $rpc, $ev, $fault
  hint so_far_push(Seq::empty(), None);
  hint so_far_push($recv, None);
  hint if $calls_auditFunc.len() == $recv.len() { ents_are($calls_auditFunc, $recv); }
  hint honest_stack(BASE, ROOT, $rpc);
  hint so_far_hashes($recv); if hashes(so_far($recv)) { mth_len(so_far($recv)); }
  hint if has(idx) { pop_step(idx); }
  hint audit_end(so_far($recv));
  ensures [count] err == GoErr::Nil && RAN ==> $recv.len() == head->0.TreeSize - BASE
  ensures [committed] err == GoErr::Nil && RAN && start_ok(BASE, ROOT) ==> head->0.RootHash == mth(so_far($recv))
  ensures [audited] err == GoErr::Nil && RAN && auditFunc is Some ==> $calls_auditFunc.len() == $recv.len() && forall|q: int| 0 <= q && q < $recv.len() ==> #[trigger] $calls_auditFunc[q] == (BASE + q, $recv[q], GoErr::Nil)
  invokes auditFunc(_, i0, e0) RAN && i0 == BASE + $calls_auditFunc.len() && forall|q: int| 0 <= q && q < $calls_auditFunc.len() ==> (#[trigger] $calls_auditFunc[q]).2 == GoErr::Nil
  ensures [calls] err == GoErr::Nil && RAN && auditFunc is Some ==> $calls_auditFunc.len() == head->0.TreeSize - BASE && forall|q: int| 0 <= q && q < $calls_auditFunc.len() ==> (#[trigger] $calls_auditFunc[q]).0 == BASE + q && $calls_auditFunc[q].2 == GoErr::Nil
  ensures [given] err == GoErr::Nil && RAN && auditFunc is Some && start_ok(BASE, ROOT) ==> head->0.RootHash == mth(so_far(ents($calls_auditFunc)))
  ensures [idle] err == GoErr::Nil && !RAN ==> $calls_auditFunc.len() == 0
  ensures [complete] RAN && honest_start(BASE, ROOT, $rpc) && $recv.len() == head->0.TreeSize - BASE && (forall|q: int| 0 <= q && q < $calls_auditFunc.len() ==> (#[trigger] $calls_auditFunc[q]).2 == GoErr::Nil) && head->0.RootHash == mth(so_far($recv)) ==> err == GoErr::Nil
  ensures [nothing] head is None ==> err != GoErr::Nil
  loop 1
    vars firstHash: []byte
    invariant forall|q: int| 0 <= q && q < $i ==> (#[trigger] $s[q]).len() == 32
    invariant isnil(firstHash) == ($i == 0)
    invariant $i == 0 ==> firstHash.len() == 0
    invariant $i > 0 ==> firstHash.len() == 32 && foldr(rev($s), $s.len() - $i, firstHash) == foldstack(rev($s))
  loop 2
    vars merkleTreeStack: [][]byte; i: int
    let S0 = rev(p->0.AuditPath)
    invariant -1 <= i && i < p->0.AuditPath.len()
    invariant merkleTreeStack == S0.subrange(0, S0.len() - 1 - i)
    decreases i + 1
    hint start_stack(p->0.AuditPath, BASE, ROOT);
  loop 3
    vars merkleTreeStack: [][]byte; idx: int64
    let RP0 = $rpc
    invariant $rpc == RP0
    invariant idx == BASE + $i
    invariant merkleTreeStack.len() == popcount(idx)
    invariant good_start(BASE, ROOT, $rpc) ==> merkleTreeStack == mths(so_far($recv), decomp(0, idx))
    invariant auditFunc is Some ==> $calls_auditFunc.len() == $i && forall|q: int| 0 <= q && q < $i ==> #[trigger] $calls_auditFunc[q] == (BASE + q, $recv[q], GoErr::Nil)
    hint if $recv.len() == pre($recv).len() + 1 { assert($recv.drop_last() =~= pre($recv)); assert($recv =~= pre($recv).push($recv.last())); so_far_push(pre($recv), $recv.last()); so_far_hashes(pre($recv)); climb_done(so_far(pre($recv)), leaf_of($recv.last())); }
  loop 4
    vars merkleTreeStack: [][]byte; z: int64
    invariant 0 <= z && z <= idx && merkleTreeStack.len() == popcount(z) + 1 && popcount(z + 1) == popcount(idx + 1)
    invariant good_start(BASE, ROOT, $rpc) ==> climb(merkleTreeStack, z) == mths(so_far($recv), decomp(0, idx + 1))
    decreases z
    hint pop_round(pre(z));
  loop 5
    vars headHash: []byte; z: int
    invariant -1 <= z && z <= merkleTreeStack.len() - 2
    invariant foldr(merkleTreeStack, z + 1, headHash) == foldstack(merkleTreeStack)
    decreases z + 1
