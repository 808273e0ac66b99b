package verifiable
uses merkle, logtree, stack, keys, bpath, smt, logstore, names, handlers, filter, maptree, maplook

func localServiceImpl.MapTreeHash(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let MAP = req->0.Map
  let N = size_of($rdb)
  let D = log_of($rdb, 1, N)
  let M = if req->0.TreeSize == 0 { N } else { req->0.TreeSize }
  requires maps_ok($rdb, N)
  hint bpk_empty();
  hint if 1 <= M && M <= N { root_stored($rdb, 1, D, None, M); }
  hint map_at_size($rdb, N, M);
  ensures [policy] map_gate($ev, MAP, 13, err)
  ensures [served] err == GoErr::Nil ==> granted($ev) && 0 <= M && M <= N && r == Some(pb_MapTreeHashResponse { RootHash: smt(contents($rdb, M), Seq::empty()), MutationLog: Some(pb_LogTreeHashResponse { TreeSize: M, RootHash: log_root(D.subrange(0, M)) }) })
  ensures [complete] map_known(MAP) && granted($ev) && map_ns_ok(MAP->0.Account->0.Id, MAP->0.Name) && 0 <= M && M <= N && !$fault ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None

func localServiceImpl.MapGetValue(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some && s->0.Reader is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let MAP = req->0.Map
  let KEY = req->0.Key
  let B = key_bits(KEY)
  let N = size_of($rdb)
  let M = if req->0.TreeSize == 0 { N } else { req->0.TreeSize }
  let C = contents($rdb, M)
  let LH = contents($rdb, M)(B)
  requires maps_ok($rdb, N)
  hint bpk_empty();
  hint key_path_len(KEY);
  hint map_at_size($rdb, N, M);
  hint tree_any_is($rdb, M, root_rec($rdb, M), C);
  hint if has(ancestors) && has(cur) { look_head($rdb, M, KEY, ancestors, cur, C); chain_step($rdb, M, B, root_rec($rdb, M), ancestors, cur, C); }
  ensures [policy] map_gate($ev, MAP, 13, err)
  ensures [size] err == GoErr::Nil ==> granted($ev) && r is Some && 0 <= M && M <= N && r->0.TreeSize == M
  ensures [value] err == GoErr::Nil ==> in_force($rdb, LH, r->0.Value, filter_of($ev))
  ensures [redacted] err == GoErr::Nil ==> r is Some && redacted_of(0, r->0.Value, filter_of($ev))
  ensures [verifies] err == GoErr::Nil ==> r->0.AuditPath.len() == 256 && map_up(pbits(sha(KEY)), r->0.AuditPath, 256, LH) == smt(C, Seq::empty())
  ensures [complete] map_known(MAP) && granted($ev) && map_ns_ok(MAP->0.Account->0.Id, MAP->0.Name) && 0 <= M && M <= N && !$fault && all_fields(filter_of($ev)) ==> err == GoErr::Nil
  ensures [refused] err != GoErr::Nil ==> r is None
  loop 1
    vars proof: [][]byte; ptr: uint; i: int
    invariant 0 <= i && i <= ancestors.len() && ptr == i && proof.len() == 256
    invariant passed(ancestors, B, proof, i) && empties(proof, i)
    decreases ancestors.len() - i
    hint look_head($rdb, M, KEY, pre(ancestors), pre(cur), C); chain_step($rdb, M, B, root_rec($rdb, M), pre(ancestors), pre(cur), C);
    hint look_all($rdb, M, KEY, ancestors, cur, C, proof);
  loop 2
    vars ptr: uint
    invariant ancestors.len() <= ptr && ptr < 256
    invariant forall|q: int| ancestors.len() <= q && q < ptr ==> #[trigger] bp_at(cur->0.Path, q) == B[q]
    decreases 256 - ptr
    hint part_found(cur->0, B, ancestors.len() as int, ptr);
