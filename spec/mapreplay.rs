// uses: merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset, audittree, jsonleaf, audit
//@type verifiable.auditState
//@type pb.MapMutation
//@type pb.MapTreeHashResponse
//@fn json_dec_pb_MapMutation (x: Seq<u8>) -> pb_MapMutation
//@fn json_dec_pb_MapTreeHashResponse (x: Seq<u8>) -> pb_MapTreeHashResponse
// Replaying a mutation log.
pub type Log0 = Seq<Option<pb_LeafData>>;
pub open spec fn extra_of(e: Option<pb_LeafData>) -> Seq<u8> { if e is Some { e->0.ExtraData } else { Seq::<u8>::empty() } }
pub open spec fn mut_of(e: Option<pb_LeafData>) -> pb_MapMutation { json_dec_pb_MapMutation(extra_of(e)) }
// the map after the mutations of the log
pub open spec fn run(l: Log0) -> Cn decreases l.len() { if l.len() == 0 { |x: Seq<bool>| null_leaf() } else { mutated(run(l.drop_last()), mut_of(l.last())) } }
pub open spec fn root_of(l: Log0) -> Seq<u8> { smt(run(l), Seq::empty()) }
// every entry is a mutation the server could have applied
pub open spec fn applies(l: Log0) -> bool { forall|i: int| 0 <= i < l.len() ==> mutation_leaf_valid(#[trigger] l[i]) && applicable(run(l.take(i)), mut_of(l[i])) }
// what a client that watches the map sees: the mutations that change its root
pub open spec fn changes(l: Log0) -> Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else {
        let m = mut_of(l.last());
        if root_of(l) == root_of(l.drop_last()) { changes(l.drop_last()) } else { changes(l.drop_last()).push((l.len() - 1, m.Key, m.Value, GoErr::Nil)) } }
}
pub open spec fn map_heads(maps: Seq<Seq<u8>>, l: Log0) -> bool { maps.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] maps[i] == root_of(l.take(i + 1)) }
pub open spec fn log_heads(logs: Seq<Seq<u8>>, l: Log0) -> bool { logs.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] logs[i] == mth(leaves_of(l.take(i + 1))) }
// the state of an audit that has replayed the log l
pub open spec fn replayed(m: Mem, a: verifiable_auditState, l: Log0, seen: Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)>) -> bool {
    &&& tree(m, a.Root, run(l)) && applies(l) && map_heads(a.MapTreeHeads, l) && log_heads(a.MutationLogTreeHeads, l)
    &&& a.MutLogHashStack == mths(leaves_of(l), decomp(0, l.len() as int))
    &&& (a.MapAuditFunction is Some ==> seen == changes(l))
}
pub open spec fn state_ok(m: Mem, a: verifiable_auditState, l: Log0, seen: Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)>) -> bool {
    replayed(m, a, l, seen) && a.Size == l.len() && (if a.MutLogHead is Some { a.MutLogHead->0.TreeSize == a.Size } else { a.Size == 0 })
    && a.Map is Some && a.Map->0.Map is Some && a.Map->0.Service is Some
}
pub open spec fn starts(l: Log0, l2: Log0) -> bool { l.len() <= l2.len() && l2.take(l.len() as int) == l }

pub proof fn leaves_hashes(l: Log0) ensures hashes(leaves_of(l)), leaves_of(l).len() == l.len()
{ broadcast use ax_sha_len; assert forall|i: int| 0 <= i < l.len() implies (#[trigger] leaves_of(l)[i]).len() == 32 by { } }
// one more entry of the log
pub proof fn replay_push(l: Log0, e: Option<pb_LeafData>)
    ensures leaves_of(l.push(e)) == leaves_of(l).push(leaf_of(e)), hashes(leaves_of(l)), leaf_of(e).len() == 32,
        climb(mths(leaves_of(l), decomp(0, l.len() as int)).push(leaf_of(e)), l.len() as int) == mths(leaves_of(l.push(e)), decomp(0, l.len() as int + 1)),
        mths(leaves_of(l), decomp(0, l.len() as int)).len() == popcount(l.len() as int), popcount(l.len() as int) >= 0,
        foldstack(mths(leaves_of(l.push(e)), decomp(0, l.len() as int + 1))) == mth(leaves_of(l.push(e))),
        run(l.push(e)) == mutated(run(l), mut_of(e)),
        root_of(l.push(e)) == smt(mutated(run(l), mut_of(e)), Seq::empty()),
        applies(l) && mutation_leaf_valid(e) && applicable(run(l), mut_of(e)) ==> applies(l.push(e)),
        forall|s: Seq<Seq<u8>>| #[trigger] map_heads(s, l) ==> map_heads(s.push(root_of(l.push(e))), l.push(e)),
        forall|s: Seq<Seq<u8>>| #[trigger] log_heads(s, l) ==> log_heads(s.push(mth(leaves_of(l.push(e)))), l.push(e)),
        changes(l.push(e)) == (if root_of(l.push(e)) == root_of(l) { changes(l) } else { changes(l).push((l.len() as int, mut_of(e).Key, mut_of(e).Value, GoErr::Nil)) }),
{
    let l2 = l.push(e); let n = l.len() as int;
    assert(l2.drop_last() =~= l); assert(l2.last() == e);
    assert(leaves_of(l2) =~= leaves_of(l).push(leaf_of(e)));
    leaves_hashes(l); leaves_hashes(l2);
    assert(leaf_of(e).len() == 32) by { assert(leaves_of(l2)[n] == leaf_of(e)); }
    climb_done(leaves_of(l), leaf_of(e));
    decomp_len(0, n); pop_step(n); audit_end(leaves_of(l2));
    assert(l2.take(n + 1) =~= l2);
    assert forall|i: int| 0 <= i <= n implies #[trigger] l2.take(i) == l.take(i) by { assert(l2.take(i) =~= l.take(i)); }
    assert(l.take(n) =~= l);
    if applies(l) && mutation_leaf_valid(e) && applicable(run(l), mut_of(e)) {
        assert forall|i: int| 0 <= i < l2.len() implies mutation_leaf_valid(#[trigger] l2[i]) && applicable(run(l2.take(i)), mut_of(l2[i])) by {
            assert(l2.take(i) == l.take(i)); if i < n { assert(l2[i] == l[i]); } }
    }
    assert forall|s: Seq<Seq<u8>>| #[trigger] map_heads(s, l) implies map_heads(s.push(root_of(l2)), l2) by {
        let t = s.push(root_of(l2));
        assert forall|i: int| 0 <= i < l2.len() implies #[trigger] t[i] == root_of(l2.take(i + 1)) by { if i < n { assert(t[i] == s[i]); assert(l2.take(i + 1) == l.take(i + 1)); } } }
    assert forall|s: Seq<Seq<u8>>| #[trigger] log_heads(s, l) implies log_heads(s.push(mth(leaves_of(l2))), l2) by {
        let t = s.push(mth(leaves_of(l2)));
        assert forall|i: int| 0 <= i < l2.len() implies #[trigger] t[i] == mth(leaves_of(l2.take(i + 1))) by { if i < n { assert(t[i] == s[i]); assert(l2.take(i + 1) == l.take(i + 1)); } } }
}
// the log with the entries handed over so far
pub open spec fn logged(ll: Log0, c: Seq<(int, Option<pb_LeafData>, GoErr)>) -> Log0 { ll + ents(c) }
pub proof fn logged_push(ll: Log0, c: Seq<(int, Option<pb_LeafData>, GoErr)>)
    ensures c.len() > 0 ==> logged(ll, c) == logged(ll, c.drop_last()).push(c.last().1), logged(ll, c).len() == ll.len() + c.len(), starts(ll, logged(ll, c)), c.len() == 0 ==> logged(ll, c) == ll
{ if c.len() > 0 { assert(logged(ll, c) =~= logged(ll, c.drop_last()).push(c.last().1)); } else { assert(logged(ll, c) =~= ll); } assert(logged(ll, c).take(ll.len() as int) =~= ll); }
// a tree head log entry that says what the replay of the mutation log found at its size
pub open spec fn entry_matches(e: Option<pb_LeafData>, l: Log0) -> bool {
    let h = json_dec_pb_MapTreeHashResponse(extra_of(e));
    h.MutationLog is Some && 1 <= h.MutationLog->0.TreeSize && h.MutationLog->0.TreeSize <= l.len()
    && h.RootHash == root_of(l.take(h.MutationLog->0.TreeSize)) && h.MutationLog->0.RootHash == mth(leaves_of(l.take(h.MutationLog->0.TreeSize)))
}
pub open spec fn entries_ok(l: Log0, e: Log0) -> bool { forall|q: int| 0 <= q < e.len() ==> leaf_valid(#[trigger] e[q]) && entry_matches(e[q], l) }
pub open spec fn audit_at(m: Mem, a: verifiable_auditState, l: Log0, seen: Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)>, e: Log0) -> bool { state_ok(m, a, l, seen) && entries_ok(l, e) }
// every entry examined carries the heads of a prefix of one mutation log, all of whose mutations apply
pub open spec fn map_audited(l: Log0, e: Log0) -> bool { applies(l) && entries_ok(l, e) }
pub proof fn longer(l: Log0, l2: Log0, e: Log0) ensures starts(l, l2) && entries_ok(l, e) ==> entries_ok(l2, e)
{ if starts(l, l2) && entries_ok(l, e) {
    assert forall|s: int| 0 <= s <= l.len() implies #[trigger] l2.take(s) == l.take(s) by { assert(l2.take(s) =~= l2.take(l.len() as int).take(s)); }
    assert forall|q: int| 0 <= q < e.len() implies leaf_valid(#[trigger] e[q]) && entry_matches(e[q], l2) by { let h = json_dec_pb_MapTreeHashResponse(extra_of(e[q])); let s = h.MutationLog->0.TreeSize; assert(entry_matches(e[q], l)); assert(l2.take(s) == l.take(s)); }
} }
pub type Seen = Seq<(int, Seq<u8>, Option<pb_LeafData>, GoErr)>;
pub type Calls = Seq<(int, Option<pb_LeafData>, GoErr)>;
// one more tree head
pub proof fn audit_more(m0: Mem, a0: verifiable_auditState, seen0: Seen, c0: Calls, m: Mem, a: verifiable_auditState, seen: Seen, c: Calls)
    ensures (exists|l: Log0| #[trigger] audit_at(m0, a0, l, seen0, ents(c0))) && c.len() > 0 && c.drop_last() == c0 && leaf_valid(c.last().1)
        && (forall|l: Log0| #[trigger] state_ok(m0, a0, l, seen0) ==> exists|l2: Log0| #[trigger] state_ok(m, a, l2, seen) && starts(l, l2) && entry_matches(c.last().1, l2))
        ==> (exists|l: Log0| #[trigger] audit_at(m, a, l, seen, ents(c)))
{
    if (exists|l: Log0| #[trigger] audit_at(m0, a0, l, seen0, ents(c0))) && c.len() > 0 && c.drop_last() == c0 && leaf_valid(c.last().1)
        && (forall|l: Log0| #[trigger] state_ok(m0, a0, l, seen0) ==> exists|l2: Log0| #[trigger] state_ok(m, a, l2, seen) && starts(l, l2) && entry_matches(c.last().1, l2)) {
        let l = choose|l: Log0| #[trigger] audit_at(m0, a0, l, seen0, ents(c0));
        assert(state_ok(m0, a0, l, seen0));
        let l2 = choose|l2: Log0| #[trigger] state_ok(m, a, l2, seen) && starts(l, l2) && entry_matches(c.last().1, l2);
        longer(l, l2, ents(c0)); ents_push(c);
        assert(ents(c) =~= ents(c0).push(c.last().1));
        assert(entries_ok(l2, ents(c))) by { assert forall|q: int| 0 <= q < ents(c).len() implies leaf_valid(#[trigger] ents(c)[q]) && entry_matches(ents(c)[q], l2) by { if q < c0.len() { assert(ents(c)[q] == ents(c0)[q]); } } }
        assert(audit_at(m, a, l2, seen, ents(c)));
    }
}
// the auditor before it has seen anything
pub open spec fn zero_node(n: verifiable_mapAuditNode) -> bool { n.Depth == 0 && !n.Leaf && n.Left == 0 && n.Right == 0 && n.Hash.len() == 0 && n.LeafHash.len() == 0 && n.KeyPath.len() == 0 }
pub open spec fn blank(m: Mem, a: verifiable_auditState) -> bool {
    m.dom().contains(a.Root) && a.Root > 0 && zero_node(m[a.Root]) && a.MutLogHead is None && a.Size == 0 && a.MutLogHashStack.len() == 0 && a.MutationLogTreeHeads.len() == 0 && a.MapTreeHeads.len() == 0
    && a.Map is Some && a.Map->0.Map is Some && a.Map->0.Service is Some
}
pub proof fn blank_ok(m: Mem, a: verifiable_auditState, seen: Seen) ensures blank(m, a) && seen.len() == 0 ==> audit_at(m, a, Seq::empty(), seen, ents(Seq::empty()))
{
    if blank(m, a) && seen.len() == 0 {
        let o = Seq::<bool>::empty(); let l: Log0 = Seq::empty(); let at: At = Map::empty().insert(o, a.Root);
        let c = run(l);
        assert forall|q: Seq<bool>, r: Seq<bool>| #[trigger] apart(at, q, r) by { }
        assert(node_ok(m, at, c, o)) by { }
        assert forall|q: Seq<bool>| at.dom().contains(q) implies #[trigger] node_ok(m, at, c, q) by { assert(q =~= o); }
        assert forall|q: Seq<bool>| at.dom().contains(q) implies #[trigger] hash_ok(m, at, c, q) by { assert(q =~= o); }
        assert(at_node(m, at, c, o, a.Root));
        assert(leaves_of(l) =~= Seq::empty()); assert(mths(leaves_of(l), decomp(0, 0)) =~= a.MutLogHashStack);
        assert(changes(l) =~= seen);
        ents_push(Seq::empty());
    }
}
pub proof fn audit_done(m: Mem, a: verifiable_auditState, seen: Seen, e: Log0)
    ensures (exists|l: Log0| #[trigger] audit_at(m, a, l, seen, e)) ==> exists|l: Log0| #[trigger] map_audited(l, e) && (a.MapAuditFunction is Some ==> seen == changes(l))
{ if exists|l: Log0| #[trigger] audit_at(m, a, l, seen, e) { let l = choose|l: Log0| #[trigger] audit_at(m, a, l, seen, e); assert(map_audited(l, e)); } }
