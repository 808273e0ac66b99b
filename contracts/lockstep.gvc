package verifiable
uses merkle, logtree, stack, keys, bpath, smt, logstore, names, handlers, filter, jsonleaf, maptree, mapset, maplook, lockstep

func applyLogAddEntry(ctx, db, sizeBefore, req) (r, err)
  requires req is Some && req->0.Log is Some && req->0.Value is Some && valid_lt(req->0.Log->0.LogType) && 0 <= sizeBefore && sizeBefore < max_log()
  let N = sizeBefore
  let LT = req->0.Log->0.LogType
  let V = req->0.Value->0
  let D = log_of(old(db), LT, sizeBefore)
  let H = leaf_hash(V.LeafInput)
  let M = json_dec_pb_MapMutation(V.ExtraData)
  requires LT != 1 ==> can_add(db, LT, D, H)
  requires LT == 1 ==> lock_pre(db, N, M)
  modifies db, $fault
  hint lock_steps(old(db), N, H, V, M);
  hint if has(mrh) { assert(heads_hash() ==> head_hashes(mrh, mth(D.push(H)), N + 1)); }
  ensures [duplicate] err == GoErr::Nil && D.contains(H) ==> r == N && db == old(db)
  ensures [plain] err == GoErr::Nil && !D.contains(H) && LT != 1 ==> r == N + 1 && added(old(db), db, LT, D, H, V)
  ensures [lockstep] err == GoErr::Nil && !D.contains(H) && LT == 1 ==> r == N + 1 && lock_done(old(db), db, N, H, M)
  ensures [fault] old($fault) ==> $fault
  ensures [complete] !$fault && (LT == 1 ==> json_valid_pb_MapMutation(V.ExtraData) && appliable(M) && heads_hash()) ==> err == GoErr::Nil

// what a mutator may ask to be applied
func ApplyMutation(ctx, db, sizeBefore, mut) (r, err)
  requires mut is Some && 0 <= sizeBefore && sizeBefore < max_log()
  let N = sizeBefore
  let Q = mut->0.LogAddEntry
  let LT = Q->0.Log->0.LogType
  let V = Q->0.Value->0
  let D = log_of(old(db), LT, sizeBefore)
  let H = leaf_hash(V.LeafInput)
  let M = json_dec_pb_MapMutation(V.ExtraData)
  requires Q is Some ==> Q->0.Log is Some && Q->0.Value is Some && valid_lt(LT) && (LT != 1 ==> can_add(db, LT, D, H)) && (LT == 1 ==> lock_pre(db, N, M))
  modifies db, $fault
  ensures [unknown] Q is None ==> err != GoErr::Nil && db == old(db)
  ensures [duplicate] Q is Some && err == GoErr::Nil && D.contains(H) ==> r == N && db == old(db)
  ensures [plain] Q is Some && err == GoErr::Nil && !D.contains(H) && LT != 1 ==> r == N + 1 && added(old(db), db, LT, D, H, V)
  ensures [lockstep] Q is Some && err == GoErr::Nil && !D.contains(H) && LT == 1 ==> r == N + 1 && lock_done(old(db), db, N, H, M)
  ensures [step] err == GoErr::Nil ==> (r == N && db == old(db)) || r == N + 1
  ensures [applies] Q is Some && !$fault && (LT == 1 ==> json_valid_pb_MapMutation(V.ExtraData) && appliable(M) && heads_hash()) ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
