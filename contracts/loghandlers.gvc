package verifiable
uses merkle, logtree, stack, keys, logstore, names, handlers, filter

func localServiceImpl.LogTreeHash(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let LOG = req->0.Log
  let LT = LOG->0.LogType
  let N = size_of($rdb)
  let D = log_of($rdb, LT, N)
  let M = if req->0.TreeSize == 0 { N } else { req->0.TreeSize }
  requires valid_lt(LT) ==> log_ok($rdb, LT, N)
  hint if valid_lt(LT) && 1 <= M && M <= N { root_stored($rdb, LT, D, None, M); }
  hint if valid_lt(LT) && N == M { assert(D.subrange(0, M) =~= D); }
  ensures [policy] log_read_gate($ev, LOG, 3, err)
  ensures [served] err == GoErr::Nil ==> granted($ev) && 0 <= M && M <= N && r == Some(pb_LogTreeHashResponse { TreeSize: M, RootHash: log_root(D.subrange(0, M)) })
  ensures [complete] log_known(LOG, 3) && granted($ev) && log_hashable(LOG->0) && 0 <= M && M <= N && !$fault ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None

func localServiceImpl.LogInclusionProof(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let LOG = req->0.Log
  let LT = LOG->0.LogType
  let N = size_of($rdb)
  let D = log_of($rdb, LT, N)
  let M = if req->0.TreeSize == 0 { N } else { req->0.TreeSize }
  let BYHASH = req->0.MtlHash.len() > 0
  let I = if BYHASH { index_at($rdb, LT, req->0.MtlHash) } else { req->0.LeafIndex }
  let R = rpath(I, 0, M)
  requires valid_lt(LT) ==> log_ok($rdb, LT, N)
  hint if valid_lt(LT) && BYHASH { index_found($rdb, LT, D, None, req->0.MtlHash); }
  hint inclusion_ready(D, I, M);
  hint if has(r) && r is Some { path_is(D, R, r->0.AuditPath); }
  ensures [policy] log_read_gate($ev, LOG, 4, err)
  ensures [asked] err == GoErr::Nil ==> granted($ev) && r is Some && r->0.TreeSize == M && r->0.LeafIndex == I && 0 <= I && I < M && M <= N && (BYHASH ==> D[I] == req->0.MtlHash)
  ensures [path] err == GoErr::Nil ==> r->0.AuditPath =~= mths(D, R)
  ensures [verifies] err == GoErr::Nil ==> hashes(r->0.AuditPath) && inc_fold(I, M, r->0.AuditPath, D[I]) == Some(mth(D.subrange(0, M)))
  ensures [complete] log_known(LOG, 4) && granted($ev) && log_hashable(LOG->0) && 0 <= M && M <= N && !$fault && (BYHASH ==> D.contains(req->0.MtlHash)) && 0 <= I && I < M ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    vars path: [][]byte
    invariant path.len() == $s.len()
    invariant forall|q: int| 0 <= q && q < $i ==> #[trigger] path[q] == mth(D.subrange(R[q].0, R[q].1))
    invariant forall|q: int| $i <= q && q < path.len() ==> got($rdb, LT, R[q], #[trigger] path[q], true, $fault)
    hint range_lax($rdb, LT, D, None, R[pre($i)].0, R[pre($i)].1, pre(path)[pre($i)], pre($fault));

func localServiceImpl.LogConsistencyProof(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let LOG = req->0.Log
  let LT = LOG->0.LogType
  let N = size_of($rdb)
  let D = log_of($rdb, LT, N)
  let A = req->0.FromSize
  let B = if req->0.TreeSize == 0 { N } else { req->0.TreeSize }
  let R = rsub(A, 0, B, true)
  requires valid_lt(LT) ==> log_ok($rdb, LT, N)
  hint consistency_ready(D, A, B);
  hint if has(r) && r is Some { path_is(D, R, r->0.AuditPath); }
  ensures [policy] log_read_gate($ev, LOG, 3, err)
  ensures [asked] err == GoErr::Nil ==> granted($ev) && r is Some && r->0.FromSize == A && r->0.TreeSize == B && 0 < A && A < B && B <= N
  ensures [path] err == GoErr::Nil ==> r->0.AuditPath =~= mths(D, R)
  ensures [verifies] err == GoErr::Nil ==> hashes(r->0.AuditPath) && cons_fold(A, B, r->0.AuditPath, true, mth(D.subrange(0, A))) == Some((mth(D.subrange(0, A)), mth(D.subrange(0, B))))
  ensures [complete] log_known(LOG, 3) && granted($ev) && log_hashable(LOG->0) && 0 < A && A < B && B <= N && !$fault ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    vars path: [][]byte
    invariant path.len() == $s.len()
    invariant forall|q: int| 0 <= q && q < $i ==> #[trigger] path[q] == mth(D.subrange(R[q].0, R[q].1))
    invariant forall|q: int| $i <= q && q < path.len() ==> got($rdb, LT, R[q], #[trigger] path[q], true, $fault)
    hint range_lax($rdb, LT, D, None, R[pre($i)].0, R[pre($i)].1, pre(path)[pre($i)], pre($fault));

func localServiceImpl.LogFetchEntries(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let LOG = req->0.Log
  let LT = LOG->0.LogType
  let N = size_of($rdb)
  let D = log_of($rdb, LT, N)
  let A = req->0.First
  let B = if req->0.Last == 0 { N } else { req->0.Last }
  requires valid_lt(LT) ==> log_ok($rdb, LT, N)
  ensures [policy] log_read_gate($ev, LOG, 2, err)
  ensures [range] err == GoErr::Nil ==> granted($ev) && r is Some && 0 <= A && A < B && B <= N && r->0.Values.len() == B - A
  ensures [entries] err == GoErr::Nil ==> forall|q: int| 0 <= q && q < B - A ==> data_at($rdb, LT, #[trigger] D[A + q]) && shown_entry(LT, data_of($rdb, LT, D[A + q]), r->0.Values[q], filter_of($ev))
  ensures [redacted] err == GoErr::Nil ==> r is Some && forall|q: int| 0 <= q && q < r->0.Values.len() ==> redacted_of(LT, #[trigger] r->0.Values[q], filter_of($ev))
  ensures [complete] log_known(LOG, 2) && granted($ev) && log_hashable(LOG->0) && 0 <= A && A < B && B <= N && !$fault && LT != 1 && all_fields(filter_of($ev)) ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    vars vals: []*pb.LeafData
    invariant [redacted] vals.len() == $s.len()
    invariant [redacted] forall|q: int| 0 <= q && q < $i ==> redacted_of(LT, #[trigger] vals[q], filter_of($ev))
    invariant forall|q: int| 0 <= q && q < $i ==> data_at($rdb, LT, #[trigger] D[A + q]) && shown_entry(LT, data_of($rdb, LT, D[A + q]), vals[q], filter_of($ev))
    hint leaf_has_data($rdb, LT, D, None, A + pre($i));

func localServiceImpl.LogAddEntry(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let LOG = req->0.Log
  let NS = ref_ns(LOG->0.Account->0.Id, LOG->0.Name, LOG->0.LogType)
  ensures [policy] if !log_known(LOG, 1) { $ev.len() == 0 && err == GoErr::Status(7) } else { asked($ev, LOG->0.Account->0.Id, LOG->0.Account->0.ApiKey, LOG->0.Name, 8) && (!granted($ev) ==> err == GoErr::Status(7)) }
  ensures [gate] $ev.len() >= 2 ==> granted($ev) && $ev.len() == 2 && $ev[1] is Queue && $ev[1]->Queue_0 == NS
  ensures [queued] $ev.len() >= 2 ==> granted($ev) && $ev.len() == 2 && $ev[1] == Ev::Queue(NS, Some(pb_Mutation { Namespace: Seq::empty(), LogAddEntry: req }))
  ensures [accepted] err == GoErr::Nil ==> $ev.len() == 2 && req->0.Value is Some && LOG->0.LogType == 0 && r == Some(pb_LogAddEntryResponse { LeafHash: leaf_hash(req->0.Value->0.LeafInput) })
  ensures [raw] $ev.len() >= 2 ==> LOG->0.LogType == 0 && req->0.Value is Some
  ensures [complete] log_known(LOG, 1) && granted($ev) && log_hashable(LOG->0) && s->0.Mutator is Some && req->0.Value is Some && LOG->0.LogType == 0 ==> $ev.len() == 2
  ensures [refused] err != GoErr::Nil ==> r is None
