package verifiable
uses merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset, audittree, jsonleaf, audit, mapreplay
heap mapAuditNode $mem
ghost $seen Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)>
records MapAuditFunction $seen

func auditState.ProcessUntilAtLeast(a, ctx, size) (err)
  rlimit 8
  given ll: Seq<Option<pb_LeafData>>
  requires [api] a is Some
  requires state_ok($mem, a->0, ll, $seen)
  requires [spread] keys_spread()
  modifies a, $mem, $seen, $ev, $fault
  assuming Log.VerifyEntries head is Some ==> head->0.TreeSize < 0x4000_0000_0000_0000
  ensures [kept] err == GoErr::Nil ==> a is Some && a->0.MapAuditFunction == old(a)->0.MapAuditFunction
  hint logged_push(ll, $calls);
  hint if a is Some && state_ok($mem, a->0, logged(ll, $calls), $seen) { }
  hint assert(ll.take(ll.len() as int) =~= ll);
  ensures [replayed] err == GoErr::Nil ==> exists|l2: Seq<Option<pb_LeafData>>| #[trigger] state_ok($mem, a->0, l2, $seen) && starts(ll, l2) && size <= l2.len()
  iterates Log.VerifyEntries
    invariant [state] replayed($mem, a->0, logged(ll, $calls), $seen)
    invariant [root] lastRootHash == root_of(logged(ll, $calls))
    invariant [rest] a is Some && a->0.Size == old(a)->0.Size && a->0.MutLogHead == old(a)->0.MutLogHead && a->0.Map == old(a)->0.Map && a->0.Root == old(a)->0.Root && (a->0.MapAuditFunction == old(a)->0.MapAuditFunction)
    hint logged_push(ll, $calls);
    hint if has(entry) { replay_push(logged(ll, pre($calls)), entry); }
    hint replay_push(logged(ll, pre($calls)), $calls.last().1);
    hint assert($calls.len() == pre($calls).len() + 1 ==> $calls.drop_last() =~= pre($calls));
  loop 1
    vars z: int64
    let A0 = a->0
    let LL = logged(ll, $calls)
    invariant a is Some && a->0 == (verifiable_auditState { MutLogHashStack: a->0.MutLogHashStack, ..A0 })
    invariant 0 <= z && z <= idx && a->0.MutLogHashStack.len() == popcount(z) + 1 && popcount(z + 1) == popcount(idx + 1) && popcount(z) >= 0
    invariant climb(a->0.MutLogHashStack, z) == mths(leaves_of(LL.push(entry)), decomp(0, idx + 1))
    decreases z
    hint pop_round(pre(z));
    hint pop_step(pre(z) / 2);
  loop 2
    vars headHash: []byte; z: int
    invariant -1 <= z && z <= a->0.MutLogHashStack.len() - 2
    invariant foldr(a->0.MutLogHashStack, z + 1, headHash) == foldstack(a->0.MutLogHashStack)
    decreases z + 1

func auditState.CheckTreeHeadEntry(a, ctx, idx, entry) (err)
  given ll: Seq<Option<pb_LeafData>>
  requires [api] a is Some
  requires state_ok($mem, a->0, ll, $seen)
  requires [spread] keys_spread()
  modifies a, $mem, $seen, $ev, $fault
  ensures [kept] err == GoErr::Nil ==> a is Some && a->0.MapAuditFunction == old(a)->0.MapAuditFunction
  ensures [checked] err == GoErr::Nil ==> leaf_valid(entry)
  ensures [replayed] err == GoErr::Nil ==> exists|l2: Seq<Option<pb_LeafData>>| #[trigger] state_ok($mem, a->0, l2, $seen) && starts(ll, l2) && entry_matches(entry, l2)

func Map.VerifyMap(vmap, ctx, prev, head, leafFunc, auditFunc) (err)
  requires [api] vmap is Some && vmap->0.Service is Some && vmap->0.Map is Some
  requires [spread] keys_spread()
  requires [new] $seen.len() == 0
  let PREV = (if prev is Some { prev->0.TreeHeadLogTreeHead } else { None })
  let HEAD = (if head is Some { head->0.TreeHeadLogTreeHead } else { None })
  let BASE = (if PREV is Some && PREV->0.TreeSize > 0 { PREV->0.TreeSize } else { 0 })
  let ROOT = (if PREV is Some { PREV->0.RootHash } else { Seq::<u8>::empty() })
  let RAN = (HEAD is Some && HEAD->0.TreeSize >= 1 && (PREV is Some ==> HEAD->0.TreeSize > PREV->0.TreeSize))
  modifies $mem, $seen, $calls_auditFunc, $ev, $fault
  assuming Log.VerifyEntries head is Some ==> head->0.TreeSize < 0x4000_0000_0000_0000
  hint audit_done($mem, $self->0, $seen, ents($calls));
  ensures [nothing] HEAD is None ==> err != GoErr::Nil
  ensures [audited] err == GoErr::Nil && RAN ==> exists|l: Seq<Option<pb_LeafData>>, e: Seq<Option<pb_LeafData>>| #[trigger] map_audited(l, e) && e.len() == HEAD->0.TreeSize - BASE && (start_ok(BASE, ROOT) ==> HEAD->0.RootHash == mth(so_far(e))) && (auditFunc is Some ==> $seen == changes(l))
  iterates Log.VerifyEntries
    invariant [state] exists|l: Seq<Option<pb_LeafData>>| #[trigger] audit_at($mem, $self->0, l, $seen, ents($calls))
    invariant [kept] $self is Some && $self->0.MapAuditFunction == auditFunc
    hint audit_done($mem, $self->0, $seen, ents($calls));
    hint blank_ok($mem, $self->0, $seen);
    hint audit_more(pre($mem), pre($self->0), pre($seen), pre($calls), $mem, $self->0, $seen, $calls);
    hint assert($calls.len() == pre($calls).len() + 1 ==> $calls.drop_last() =~= pre($calls));
