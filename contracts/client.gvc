package verifiable
uses merkle, logtree, smt, jsonleaf, client

func Log.VerifyInclusion(log, ctx, head, leaf) (err)
  requires log is Some && log->0.Service is Some && head is Some
  ensures [proved] err == GoErr::Nil ==> included(leaf, head->0)

func Log.VerifyConsistency(log, ctx, a, b) (err)
  requires log is Some && log->0.Service is Some
  ensures [proved] err == GoErr::Nil ==> consistent(a, b)

func Log.VerifiedTreeHead(log, ctx, prev, treeSize) (r, err)
  requires log is Some && log->0.Service is Some
  ensures [consistent] err == GoErr::Nil && prev is Some ==> r == prev || consistent(prev, r)
  ensures [same] err == GoErr::Nil && prev is Some && treeSize != 0 && prev->0.TreeSize == treeSize ==> r == prev
  ensures [value] err == GoErr::Nil ==> r is Some
  ensures [refused] err != GoErr::Nil ==> r is None

func Log.VerifiedLatestTreeHead(log, ctx, prev) (r, err)
  requires log is Some && log->0.Service is Some
  ensures [consistent] err == GoErr::Nil && prev is Some ==> r == prev || consistent(prev, r)
  ensures [forward] err == GoErr::Nil && prev is Some ==> r is Some && (r == prev || r->0.TreeSize > prev->0.TreeSize)
  ensures [value] err == GoErr::Nil ==> r is Some
  ensures [refused] err != GoErr::Nil ==> r is None

func Log.VerifySuppliedInclusionProof(log, ctx, prev, proof, leaf) (r, err)
  requires log is Some && log->0.Service is Some && proof is Some
  ensures [proved] err == GoErr::Nil ==> r is Some && inc_valid(proof, leaf, r->0)
  ensures [consistent] err == GoErr::Nil && prev is Some ==> r == prev || consistent(prev, r)
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.VerifiedGet(vmap, ctx, key, mapHead) (r, err)
  requires vmap is Some && vmap->0.Service is Some && mapHead is Some && mapHead->0.MapTreeHead is Some && mapHead->0.MapTreeHead->0.MutationLog is Some
  ensures [proved] err == GoErr::Nil ==> got(r, key, mapHead->0.MapTreeHead->0)
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.VerifiedMapState(vmap, ctx, prev, treeSize) (r, err)
  requires vmap is Some && vmap->0.Service is Some && vmap->0.Map is Some
  requires prev is Some ==> prev->0.MapTreeHead is Some && prev->0.MapTreeHead->0.MutationLog is Some
  ensures [included] err == GoErr::Nil && r is Some && r != prev ==> r->0.MapTreeHead is Some && r->0.TreeHeadLogTreeHead is Some && head_included(r->0.MapTreeHead, r->0.TreeHeadLogTreeHead->0)
  ensures [consistent] err == GoErr::Nil && prev is Some ==> r is Some && (r == prev || (consistent(prev->0.MapTreeHead->0.MutationLog, r->0.MapTreeHead->0.MutationLog) && (prev->0.TreeHeadLogTreeHead is None || r->0.TreeHeadLogTreeHead == prev->0.TreeHeadLogTreeHead || consistent(prev->0.TreeHeadLogTreeHead, r->0.TreeHeadLogTreeHead))))
  ensures [forward] err == GoErr::Nil && prev is Some && prev->0.TreeHeadLogTreeHead is Some ==> r is Some && r->0.TreeHeadLogTreeHead is Some && r->0.TreeHeadLogTreeHead->0.TreeSize >= prev->0.TreeHeadLogTreeHead->0.TreeSize
  ensures [same] err == GoErr::Nil && prev is Some && treeSize != 0 && prev->0.MapTreeHead->0.MutationLog->0.TreeSize == treeSize ==> r == prev
  ensures [value] err == GoErr::Nil && r is Some ==> r->0.MapTreeHead is Some && r->0.MapTreeHead->0.MutationLog is Some
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.VerifiedLatestMapState(vmap, ctx, prev) (r, err)
  requires vmap is Some && vmap->0.Service is Some && vmap->0.Map is Some
  requires prev is Some ==> prev->0.MapTreeHead is Some && prev->0.MapTreeHead->0.MutationLog is Some
  ensures [included] err == GoErr::Nil && r is Some && r != prev ==> r->0.MapTreeHead is Some && r->0.TreeHeadLogTreeHead is Some && head_included(r->0.MapTreeHead, r->0.TreeHeadLogTreeHead->0)
  ensures [consistent] err == GoErr::Nil && prev is Some ==> r is Some && (r == prev || (consistent(prev->0.MapTreeHead->0.MutationLog, r->0.MapTreeHead->0.MutationLog) && (prev->0.TreeHeadLogTreeHead is None || r->0.TreeHeadLogTreeHead == prev->0.TreeHeadLogTreeHead || consistent(prev->0.TreeHeadLogTreeHead, r->0.TreeHeadLogTreeHead))))
  ensures [forward] err == GoErr::Nil && prev is Some ==> r is Some && (r == prev || r->0.MapTreeHead->0.MutationLog->0.TreeSize > prev->0.MapTreeHead->0.MutationLog->0.TreeSize)
  ensures [refused] err != GoErr::Nil ==> r is None

func Log.BlockUntilPresent(log, ctx, leaf) (r, err)
  requires log is Some && log->0.Service is Some
  modifies $ev, $fault
  ensures [proved] err == GoErr::Nil ==> r is Some && included(leaf, r->0)
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    invariant log == old(log)

func Map.BlockUntilSize(vmap, ctx, treeSize) (r, err)
  requires vmap is Some && vmap->0.Service is Some
  modifies $ev, $fault
  ensures [reached] err == GoErr::Nil ==> r is Some && r->0.MutationLog is Some && r->0.MutationLog->0.TreeSize >= treeSize
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    invariant vmap == old(vmap)

func logAddPromise.Wait(p, ctx) (r, err)
  requires p is Some && p->0.Log is Some && p->0.Log->0.Service is Some
  modifies $ev, $fault
  ensures [proved] err == GoErr::Nil ==> r is Some && included(p->0.MTL, r->0)

func logAddPromise.LeafHash(p) (r)
  requires p is Some
  ensures [leaf] r == p->0.MTL

func mapSetPromise.LeafHash(p) (r)
  requires p is Some
  ensures [leaf] r == p->0.MTL

func mapSetPromise.Wait(p, ctx) (r, err)
  requires p is Some && p->0.Map is Some && p->0.Map->0.Service is Some && p->0.Map->0.Map is Some
  modifies $ev, $fault
