// uses: keys, kv
//@type pb.Mutation
// An application of a mutation to a store at a size, and what came of it.
#[verifier::ext_equal]
pub ghost struct Ap { pub before: Db, pub size: int, pub mut_: Option<pb_Mutation>, pub after: Db, pub next: int, pub err: GoErr }
// applications one after the other, each from where the one before it ended, all successful
pub open spec fn chain(s: Seq<Ap>, d0: Db, n0: int, d1: Db, n1: int) -> bool decreases s.len() {
    if s.len() == 0 { d0 == d1 && n0 == n1 }
    else { chain(s.drop_last(), d0, n0, s.last().before, s.last().size) && s.last().after == d1 && s.last().next == n1 && s.last().err == GoErr::Nil }
}
pub proof fn chain_push(s: Seq<Ap>, a: Ap, d0: Db, n0: int, d1: Db, n1: int)
    requires chain(s, d0, n0, a.before, a.size), a.after == d1, a.next == n1, a.err == GoErr::Nil
    ensures chain(s.push(a), d0, n0, d1, n1)
{ assert(s.push(a).drop_last() =~= s); }
pub proof fn chain_grow()
    ensures forall|s: Seq<Ap>, a: Ap, d0: Db, n0: int| #[trigger] chain(s, d0, n0, a.before, a.size) && a.err == GoErr::Nil ==> #[trigger] chain(s.push(a), d0, n0, a.after, a.next)
{ assert forall|s: Seq<Ap>, a: Ap, d0: Db, n0: int| #[trigger] chain(s, d0, n0, a.before, a.size) && a.err == GoErr::Nil implies #[trigger] chain(s.push(a), d0, n0, a.after, a.next) by { chain_push(s, a, d0, n0, a.after, a.next); } }
