package oracle/policy
uses merkle, policy

func Static.VerifyAllowed(o, ctx, account, apiKey, objectName, permission) (r, err)
  requires o is Some && well_formed(o->0.Policy)
  let P = o->0.Policy
  hint found(P, $i1, $i2, $i3, account, apiKey, objectName, permission);
  ensures [granted] err == GoErr::Nil ==> r is Some && exists|a: int, p: int| #[trigger] first_rule(P, a, p, account, apiKey, objectName, permission) && r->0.FieldFilter == str_join(P[a]->0.Policy[p]->0.AllowedFields, lit(","))
  ensures [refused] err != GoErr::Nil ==> err == named_err(verifiable.ErrNotAuthorized) && r is None && no_account(P, P.len() as int, account, apiKey, objectName, permission)
  loop 1
    invariant no_account(P, $i, account, apiKey, objectName, permission)
  loop 2
    invariant no_rule(P[$i1]->0, $i, apiKey, objectName, permission)
  loop 3
    invariant forall|q: int| 0 <= q && q < $i && (#[trigger] P[$i1]->0.Policy[$i2]->0.Permissions[q] == 1 || P[$i1]->0.Policy[$i2]->0.Permissions[q] == permission) ==> !(rule_key(P[$i1]->0.Policy[$i2]->0, apiKey) && glob(P[$i1]->0.Policy[$i2]->0.NameMatch, objectName))

func anythingGoes.VerifyAllowed(o, ctx, account, apiKey, objectName, permission) (r, err)
  requires o is Some
  ensures [open] err == GoErr::Nil && r is Some && r->0.FieldFilter == lit("*")
