// uses: merkle
//@type pb.AccessPolicy
//@type pb.ResourceAccount
//@fn glob (x0: Seq<u8>, x1: Seq<u8>) -> bool
//@fn str_join (x0: Seq<Seq<u8>>, x1: Seq<u8>) -> Seq<u8>
// The rules of a static policy.
pub open spec fn rule_key(r: pb_AccessPolicy, key: Seq<u8>) -> bool { r.ApiKey == lit!("*") || (r.ApiKey.len() != 0 && r.ApiKey == key) }
pub open spec fn rule_perm(r: pb_AccessPolicy, perm: int) -> bool { exists|q: int| 0 <= q < r.Permissions.len() && (#[trigger] r.Permissions[q] == 1 || r.Permissions[q] == perm) }
// a rule that grants a permission on an object to the holder of a key
pub open spec fn rule_grants(r: pb_AccessPolicy, key: Seq<u8>, name: Seq<u8>, perm: int) -> bool { rule_perm(r, perm) && rule_key(r, key) && glob(r.NameMatch, name) }
pub open spec fn no_rule(a: pb_ResourceAccount, n: int, key: Seq<u8>, name: Seq<u8>, perm: int) -> bool { forall|p: int| 0 <= p < n && p < a.Policy.len() ==> !rule_grants((#[trigger] a.Policy[p])->0, key, name, perm) }
// no rule of the first n accounts that is for the account grants it
pub open spec fn no_account(ps: Seq<Option<pb_ResourceAccount>>, n: int, acct: Seq<u8>, key: Seq<u8>, name: Seq<u8>, perm: int) -> bool
{ forall|a: int| 0 <= a < n && a < ps.len() && (#[trigger] ps[a])->0.Id == acct ==> no_rule(ps[a]->0, ps[a]->0.Policy.len() as int, key, name, perm) }
// the p-th rule of the a-th account is the first, in the order of the configuration, that grants it
pub open spec fn first_rule(ps: Seq<Option<pb_ResourceAccount>>, a: int, p: int, acct: Seq<u8>, key: Seq<u8>, name: Seq<u8>, perm: int) -> bool
{ 0 <= a < ps.len() && ps[a]->0.Id == acct && no_account(ps, a, acct, key, name, perm) && 0 <= p < ps[a]->0.Policy.len() && no_rule(ps[a]->0, p, key, name, perm) && rule_grants(ps[a]->0.Policy[p]->0, key, name, perm) }
// every account and rule of the configuration is there
pub open spec fn well_formed(ps: Seq<Option<pb_ResourceAccount>>) -> bool
{ forall|a: int| 0 <= a < ps.len() ==> (#[trigger] ps[a]) is Some && forall|p: int| 0 <= p < ps[a]->0.Policy.len() ==> (#[trigger] ps[a]->0.Policy[p]) is Some }
pub proof fn found(ps: Seq<Option<pb_ResourceAccount>>, a: int, p: int, q: int, acct: Seq<u8>, key: Seq<u8>, name: Seq<u8>, perm: int)
    ensures 0 <= a < ps.len() && ps[a]->0.Id == acct && no_account(ps, a, acct, key, name, perm) && 0 <= p < ps[a]->0.Policy.len() && no_rule(ps[a]->0, p, key, name, perm)
        && 0 <= q < ps[a]->0.Policy[p]->0.Permissions.len() && (ps[a]->0.Policy[p]->0.Permissions[q] == 1 || ps[a]->0.Policy[p]->0.Permissions[q] == perm)
        && rule_key(ps[a]->0.Policy[p]->0, key) && glob(ps[a]->0.Policy[p]->0.NameMatch, name) ==> first_rule(ps, a, p, acct, key, name, perm)
{ }
