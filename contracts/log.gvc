package verifiable
uses merkle, logtree, stack, keys, logstore, names

func createNeededStack(start) (r)
  requires 0 <= start && start <= max_log()
  fresh r
  hint needed_is(0, start);
  ensures [decomp] r =~= decomp(0, start)
  loop 1
    vars rv: [][2]int64
    invariant rv.len() == $s.len()
    invariant forall|q: int| 0 <= q && q < $i ==> rv[$s.len() - 1 - q] == #[trigger] $s[q]

func fetchSubTreeHashes(ctx, kr, lt, ranges, failOnMissing) (rv, err)
  requires valid_lt(lt)
  requires forall|q: int| 0 <= q && q < ranges.len() ==> 0 <= (#[trigger] ranges[q]).0 && ranges[q].0 < ranges[q].1
  fresh rv
  modifies $fault
  ensures [fault] old($fault) ==> $fault
  ensures [all] err == GoErr::Nil ==> rv.len() == ranges.len()
  ensures [found] err == GoErr::Nil && typed(kr) ==> forall|q: int| 0 <= q && q < ranges.len() ==> got(kr, lt, ranges[q], #[trigger] rv[q], !failOnMissing, $fault)
  ensures [missing] err != GoErr::Nil ==> failOnMissing && ($fault || exists|q: int| 0 <= q && q < ranges.len() && !stored(kr, range_key(lt, (#[trigger] ranges[q]).0, ranges[q].1)))
  loop 1
    vars rv: [][]byte
    invariant rv.len() == ranges.len() && (old($fault) ==> $fault)
    invariant forall|q: int| $i <= q && q < rv.len() ==> (#[trigger] rv[q]).len() == 0
    invariant typed(kr) ==> forall|q: int| 0 <= q && q < $i ==> got(kr, lt, ranges[q], #[trigger] rv[q], !failOnMissing, $fault)
    hint if typed(kr) && pre($i) < ranges.len() { range_kind(kr, lt, ranges[pre($i)].0, ranges[pre($i)].1); }

func lookupLogTreeHead(ctx, kr, lt) (r, err)
  requires valid_lt(lt) && log_ok(kr, lt, size_of(kr))
  modifies $fault
  fresh r
  hint if size_of(kr) >= 1 { root_stored(kr, lt, log_of(kr, lt, size_of(kr)), None, size_of(kr)); }
  hint assert(log_of(kr, lt, size_of(kr)).subrange(0, size_of(kr)) =~= log_of(kr, lt, size_of(kr)));
  ensures [head] err == GoErr::Nil ==> r == Some(pb_LogTreeHashResponse { RootHash: (if size_of(kr) == 0 { Seq::empty() } else { mth(log_of(kr, lt, size_of(kr))) }), TreeSize: size_of(kr) })
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault

func lookupLogEntryHashes(ctx, kr, lt, first, last) (rv, err)
  requires valid_lt(lt) && log_ok(kr, lt, size_of(kr)) && 0 <= first && first <= last && last <= size_of(kr)
  modifies $fault
  ensures [hashes] err == GoErr::Nil ==> rv =~= log_of(kr, lt, size_of(kr)).subrange(first, last)
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  loop 1
    vars rv: [][]byte; i: int64
    invariant first <= i && i <= last && rv.len() == last - first && (old($fault) ==> $fault)
    invariant forall|q: int| 0 <= q && q < i - first ==> #[trigger] rv[q] == log_of(kr, lt, size_of(kr))[first + q]
    decreases last - i
    hint if first <= pre(i) && pre(i) < last { leaf_stored(kr, lt, log_of(kr, lt, size_of(kr)), None, pre(i)); }

func calcSubTreeHash(ctx, kr, lt, start, end) (r, err)
  requires valid_lt(lt) && log_ok(kr, lt, size_of(kr)) && aligned(start, end) && end <= size_of(kr)
  let D = log_of(kr, lt, size_of(kr))
  modifies $fault
  hint decomp_stored(kr, lt, D, None, old(start), end);
  hint if has(hashes) { decomp_fetched(kr, lt, D, None, old(start), end, hashes, $fault); }
  ensures [value] err == GoErr::Nil ==> r == mth(D.subrange(start, end))
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  loop 1
    vars r: [][2]int64; start: int64
    invariant old(start) <= start && start <= end && (start < end ==> aligned(start, end))
    invariant r + decomp(start, end) =~= decomp(old(start), end)
    decreases end - start
    hint if pre(start) < end { decomp_step(pre(start), end); }
    hint assert(decomp(end, end) =~= Seq::<(int, int)>::empty());
  loop 2
    vars rv: []byte; i: int
    invariant -1 <= i && i <= hashes.len() - 2
    invariant foldr(hashes, i + 1, rv) == foldstack(hashes)
    decreases i + 1

func writeOutLogTreeNodes(ctx, db, log, entryIndex, mtl, stack) (r, err)
  requires log is Some && valid_lt(log->0.LogType) && 0 <= entryIndex && entryIndex < max_log() && mtl.len() == 32
  let LT = log->0.LogType
  let D = log_of(old(db), LT, entryIndex)
  let E = log_of(old(db), LT, entryIndex).push(mtl)
  requires log_inv(db, LT, D, Some(mtl))
  requires stack == mths(D, decomp(0, entryIndex))
  consumes stack
  modifies db, $fault
  hint part_start(D, mtl);
  ensures [kept] log_inv(db, LT, D, Some(mtl))
  ensures [frame] node_frame(old(db), db, LT, entryIndex + 1)
  ensures [head] err == GoErr::Nil ==> r == mth(E)
  ensures [nodes] err == GoErr::Nil ==> nodes_done(db, LT, E, entryIndex + 1)
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
  loop 1
    vars stack: [][]byte; zz: int64; width: int64
    invariant part_at(E, width, zz, entryIndex)
    invariant stack == part_stack(E, width / 2)
    invariant log_inv(db, LT, D, Some(mtl)) && (old($fault) ==> $fault)
    invariant node_frame(old(db), db, LT, entryIndex + 1)
    invariant nodes_done(db, LT, E, width / 2)
    decreases zz
    hint part_round(E, pre(width), pre(zz), entryIndex);
    hint part_put(old(db), pre(db), LT, D, mtl, pre(width), pb_TreeNode { Mth: mth(E.subrange(entryIndex + 1 - pre(width), entryIndex + 1)) });
  loop 2
    vars headHash: []byte; z: int
    invariant -1 <= z && z <= stack.len() - 2
    invariant foldr(stack, z + 1, headHash) == foldstack(stack)
    decreases z + 1

func addEntryToLog(ctx, db, sizeBefore, log, data) (r, err)
  requires log is Some && data is Some && valid_lt(log->0.LogType) && 0 <= sizeBefore && sizeBefore < max_log()
  let LT = log->0.LogType
  let D = log_of(old(db), LT, sizeBefore)
  let H = leaf_hash(data->0.LeafInput)
  requires can_add(db, LT, D, H)
  modifies db, $fault
  fresh r
  hint add_steps(old(db), LT, D, H, data->0);
  hint add_end_all(old(db), LT, D, H, data->0);
  hint decomp_stored0(begun3(old(db), LT, H, data->0, sizeBefore), LT, D, Some(H), sizeBefore);
  hint if has(stack) { decomp_fetched0(begun3(old(db), LT, H, data->0, sizeBefore), LT, D, Some(H), sizeBefore, stack, $fault); }
  ensures [duplicate] err == GoErr::Nil && r is None ==> D.contains(H) && db == old(db)
  ensures [new] err == GoErr::Nil && r is Some ==> !D.contains(H) && added(old(db), db, LT, D, H, data->0)
  ensures [head] err == GoErr::Nil && r is Some ==> r == Some(pb_LogTreeHashResponse { RootHash: mth(D.push(H)), TreeSize: sizeBefore + 1 })
  ensures [interrupted] err != GoErr::Nil ==> begun(old(db), db, LT, D, H)
  ensures [complete] !$fault ==> err == GoErr::Nil
  ensures [fault] old($fault) ==> $fault
