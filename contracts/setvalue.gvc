package verifiable
uses merkle, names, handlers, jsonleaf, setvalue

func makeJSONMutationEntry(req) (r, err)
  requires req is Some && req->0.Mutation is Some
  ensures [kept] err == GoErr::Nil ==> r is Some && r->0 == stamped(req->0.Mutation->0, r->0.Timestamp)

func localServiceImpl.MapSetValue(s, ctx, req) (r, err)
  requires [api] s is Some && s->0.AccessPolicy is Some
  requires [api] req is Some && $ev.len() == 0
  modifies $ev, $fault
  let MAP = req->0.Map
  let MU = req->0.Mutation
  hint if has(mm) && mm is Some && MAP is Some && MU is Some && $ev.len() == 2 { assert(queued_at($ev, MAP->0, MU->0, mm->0.Timestamp)); }
  ensures [policy] set_gate($ev, MAP, err)
  ensures [gate] $ev.len() >= 2 ==> granted($ev) && $ev.len() == 2 && $ev[1] is Queue && $ev[1]->Queue_0 == map_ns(MAP->0.Account->0.Id, MAP->0.Name)
  ensures [queued] $ev.len() >= 2 ==> granted($ev) && $ev.len() == 2 && acceptable(MU) && exists|t: Seq<u8>| #[trigger] queued_at($ev, MAP->0, MU->0, t)
  ensures [accepted] err == GoErr::Nil ==> $ev.len() == 2 && r is Some && r->0.LeafHash == leaf_hash($ev[1]->Queue_1->0.LogAddEntry->0.Value->0.LeafInput)
  ensures [invalid] granted($ev) && !acceptable(MU) ==> err == GoErr::Status(3) && $ev.len() == 1
  ensures [refused] err != GoErr::Nil ==> r is None
