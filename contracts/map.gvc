package verifiable
uses merkle, bpath, smt, keys, logstore, maptree, mapset

global nullLeafHash
  value null_leaf()

func calcNodeHash(mn, depth) (r, err)
  requires mn is Some && depth <= 256
  requires mn_leaf(mn->0) ==> mn->0.Path.len() == 33
  requires !mn_leaf(mn->0) ==> depth <= 255
  ensures [hash] err == GoErr::Nil && r == nval(mn->0, depth)
  loop 1
    vars rv: []byte; i: int
    invariant depth - 1 <= i && i <= 255
    invariant rv == lup(mn->0.Path, mn->0.LeafHash, i + 1)
    decreases i + 1

func descendToFork(ctx, db, path, root) (head, rv, err)
  requires root is Some && path.len() == 33 && bp_len(path) == 256 && typed(db) && tree_any(db, root->0)
  modifies $fault
  let B = bp_bits(path)
  ensures [chain] err == GoErr::Nil ==> rv.len() <= 255 && chain(db, B, root->0, rv, head) && num(head->0, B[rv.len() as int]) == 0
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  hint step_any(db, B, root->0, Seq::empty(), root);
  loop 1
    vars rv: []*pb.MapNode; head: *pb.MapNode; depth: uint; err: error
    invariant depth == rv.len() && depth <= 255 && chain(db, B, root->0, rv, head)
    invariant 0 <= head->0.LeftNumber && 0 <= head->0.RightNumber
    invariant old($fault) ==> $fault
    decreases 256 - depth
    hint step_any(db, B, root->0, pre(rv), pre(head));
    hint slice_at(path, pre(depth) + 1);
    hint if pre(depth) <= 254 { step_any(db, B, root->0, pre(rv).push(pre(head)), Some(node_at(db, num(pre(head)->0, B[pre(depth)]), pre_(B, pre(depth) + 1)))); }

func mutationLeafHash(mut, prevLeafHash) (r, err)
  requires mut is Some
  requires mut->0.Action == lit("set") || mut->0.Action == lit("update") ==> mut->0.Value is Some
  ensures [next] err == GoErr::Nil ==> Some(r) == next_leaf(mut->0, prevLeafHash)
  ensures [refused] err != GoErr::Nil ==> next_leaf(mut->0, prevLeafHash) is None

func writeAncestors(ctx, db, last, ancestors, keyPath, mutationIndex) (r, err)
  let N = mutationIndex + 1
  let B = bp_bits(keyPath)
  requires last is Some && keyPath.len() == 33 && bp_len(keyPath) == 256 && 0 <= mutationIndex && mutationIndex < max_log()
  requires wa_any(db, N, last->0, ancestors, B)
  modifies db, $fault
  hint wa_last(old(db), N, old(last)->0, ancestors, B);
  hint assert(ancestors.subrange(0, ancestors.len() as int) =~= ancestors);
  ensures [stored] err == GoErr::Nil ==> forall|c: Cn| #[trigger] wa_pre(old(db), N, old(last)->0, ancestors, B, c) ==> map_ok(db, N, c) && r == smt(c, Seq::empty())
  ensures [frame] typed(db) && map_frame(old(db), db, N)
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  loop 1
    vars last: *pb.MapNode; curHash: []byte; i: int; err: error
    invariant -1 <= i && i <= ancestors.len() - 1 && last is Some && (old($fault) ==> $fault)
    invariant wa_any(db, N, last->0, ancestors.subrange(0, i + 1), B)
    invariant curHash == nval(last->0, i + 1)
    invariant typed(db) && map_frame(old(db), db, N)
    invariant forall|c: Cn| #[trigger] wa_pre(old(db), N, old(last)->0, ancestors, B, c) ==> wa_pre(db, N, last->0, ancestors.subrange(0, i + 1), B, c)
    decreases i + 1
    hint wa_last(pre(db), N, pre(last)->0, ancestors.subrange(0, pre(i) + 1), B);
    hint if pre(i) >= 0 { wa_round(pre(db), N, pre(last)->0, ancestors.subrange(0, pre(i) + 1), B, pre(i)); assert(ancestors.subrange(0, pre(i) + 1).subrange(0, pre(i)) =~= ancestors.subrange(0, pre(i))); slice_at(keyPath, pre(i)); frame_trans(old(db), pre(db), put_mn(pre(db), N, pre_(B, pre(i)), wa_node(ancestors[pre(i)]->0, B[pre(i)], N, pre(curHash))), N); }
    hint wa_done(pre(db), N, pre(last)->0, ancestors.subrange(0, pre(i) + 1), B);

func setMapValue(ctx, db, vmap, mutationIndex, mut) (r, err)
  let N = mutationIndex
  let M = mut->0
  let C = contents(old(db), N)
  let B = key_bits(M.Key)
  let NX = next_leaf(M, contents(old(db), N)(B))
  requires mut is Some && set_pre(db, N, M)
  modifies db, $fault
  hint key_path_len(M.Key);
  hint bpk_empty();
  hint bp_one();
  hint tree_any_is(old(db), N, root_rec(old(db), N), C);
  hint sm_same(old(db), N, M);
  hint if has(head) && has(nextLeafHash) { sm_all(old(db), N, M, ancestors, head, nextLeafHash); }
  hint if has(head) { sm_all(old(db), N, M, ancestors, head, null_leaf()); }
  hint frame_then(old(db), db, N + 1, M);
  hint if has(head) && has(nextLeafHash) { push_pop(ancestors, head); if ancestors.len() > 0 { sm_all(old(db), N, M, ancestors.drop_last(), head, nextLeafHash); } }
  hint if has(ancestors) { slice_at(keyPath, ancestors.len() as int); }
  ensures [stored] err == GoErr::Nil ==> NX is Some && map_ok(db, N + 1, mutated(C, M)) && r == smt(mutated(C, M), Seq::empty())
  ensures [refused] NX is None ==> err != GoErr::Nil && db == old(db)
  ensures [frame] typed(db) && set_frame(old(db), db, N + 1, M)
  ensures [complete] !$fault && NX is Some ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  loop 1
    vars ancestors: []*pb.MapNode
    invariant forking(old(db), N, M, head, ancestors)
    decreases 255 - ancestors.len()
    hint fork_round(old(db), N, M, head, nextLeafHash, pre(ancestors));
    hint join_at(keyPath, pre(ancestors).len() as int, seq![1u8, 0u8]); join_at(keyPath, pre(ancestors).len() as int, seq![1u8, 128u8]);
    hint slice_at(keyPath, pre(ancestors).len() as int); slice_at(keyPath, pre(ancestors).len() as int + 1);
