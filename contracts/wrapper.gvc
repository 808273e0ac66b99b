package verifiable
uses rpc, wrapper
// The objects of the client interface: each call is one operation of the service, with exactly
// the arguments given, and what comes back is what the service answered.
ghost $rpc Seq<Rpc>

calls pb.VerifiableDataStructuresServiceServer.LogAddEntry(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::AddEntry(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.LogFetchEntries(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Fetch(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.LogTreeHash(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::TreeHash(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.LogInclusionProof(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Inclusion(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.LogConsistencyProof(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Consistency(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.MapSetValue(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::SetValue(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.MapGetValue(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::GetValue(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

calls pb.VerifiableDataStructuresServiceServer.MapTreeHash(s, ctx, q) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::MapHash(q, r, err))
  ensures err == GoErr::Nil ==> r is Some

func Client.Account(v, id, apiKey) (r)
  inline
  requires v is Some
  ensures [made] r == Some(verifiable_Account { Account: Some(pb_AccountRef { Id: id, ApiKey: apiKey }), APIKey: lit(""), Service: v->0.Service })

func Account.VerifiableMap(acc, name) (r)
  inline
  requires acc is Some
  ensures [made] r == Some(verifiable_Map { Map: Some(pb_MapRef { Account: acc->0.Account, Name: name }), Service: acc->0.Service })

func Account.VerifiableLog(acc, name) (r)
  inline
  requires acc is Some
  ensures [made] r == Some(verifiable_Log { Log: Some(pb_LogRef { Account: acc->0.Account, Name: name, LogType: 0 }), Service: acc->0.Service })

func Map.MutationLog(g) (r)
  inline
  requires g is Some && g->0.Map is Some
  ensures [made] r == Some(verifiable_Log { Log: Some(pb_LogRef { Account: g->0.Map->0.Account, Name: g->0.Map->0.Name, LogType: 1 }), Service: g->0.Service })

func Map.TreeHeadLog(g) (r)
  inline
  requires g is Some && g->0.Map is Some
  ensures [made] r == Some(verifiable_Log { Log: Some(pb_LogRef { Account: g->0.Map->0.Account, Name: g->0.Map->0.Name, LogType: 2 }), Service: g->0.Service })

func Log.TreeHead(g, ctx, treeSize) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::TreeHash(Some(pb_LogTreeHashRequest { Log: g->0.Log, TreeSize: treeSize }), r, err))

func Log.InclusionProof(g, ctx, treeSize, leaf) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::Inclusion(Some(pb_LogInclusionProofRequest { Log: g->0.Log, MtlHash: leaf, TreeSize: treeSize, LeafIndex: 0 }), r, err))

func Log.InclusionProofByIndex(g, ctx, treeSize, leafIndex) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::Inclusion(Some(pb_LogInclusionProofRequest { Log: g->0.Log, MtlHash: lit(""), TreeSize: treeSize, LeafIndex: leafIndex }), r, err))

func Log.ConsistencyProof(g, ctx, first, second) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::Consistency(Some(pb_LogConsistencyProofRequest { Log: g->0.Log, FromSize: first, TreeSize: second }), r, err))

func Map.Get(g, ctx, key, treeSize) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::GetValue(Some(pb_MapGetValueRequest { Map: g->0.Map, Key: key, TreeSize: treeSize }), r, err))

func Map.TreeHead(g, ctx, treeSize) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] $rpc == old($rpc).push(Rpc::MapHash(Some(pb_MapTreeHashRequest { Map: g->0.Map, TreeSize: treeSize }), r, err))

func Log.Add(g, ctx, e) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] asked_once(old($rpc), $rpc) && $rpc.last() is AddEntry && $rpc.last()->AddEntry_0 == Some(pb_LogAddEntryRequest { Log: g->0.Log, Value: e }) && $rpc.last()->AddEntry_2 == err
  ensures [promise] err == GoErr::Nil ==> r == box_Option_verifiable_logAddPromise_(Some(verifiable_logAddPromise { Log: g, MTL: $rpc.last()->AddEntry_1->0.LeafHash }))
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.Set(g, ctx, key, value) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] asked_once(old($rpc), $rpc) && $rpc.last() is SetValue && $rpc.last()->SetValue_0 == Some(pb_MapSetValueRequest { Map: g->0.Map, Mutation: Some(pb_MapMutation { Timestamp: lit(""), Action: lit("set"), Key: key, Value: value, PreviousLeafHash: lit("") }) }) && $rpc.last()->SetValue_2 == err
  ensures [promise] err == GoErr::Nil ==> r == box_Option_verifiable_mapSetPromise_(Some(verifiable_mapSetPromise { Map: g, MTL: $rpc.last()->SetValue_1->0.LeafHash }))
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.Delete(g, ctx, key) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] asked_once(old($rpc), $rpc) && $rpc.last() is SetValue && $rpc.last()->SetValue_0 == Some(pb_MapSetValueRequest { Map: g->0.Map, Mutation: Some(pb_MapMutation { Timestamp: lit(""), Action: lit("delete"), Key: key, Value: None, PreviousLeafHash: lit("") }) }) && $rpc.last()->SetValue_2 == err
  ensures [promise] err == GoErr::Nil ==> r == box_Option_verifiable_mapSetPromise_(Some(verifiable_mapSetPromise { Map: g, MTL: $rpc.last()->SetValue_1->0.LeafHash }))
  ensures [refused] err != GoErr::Nil ==> r is None

func Map.Update(g, ctx, key, value, previousLeaf) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] asked_once(old($rpc), $rpc) && $rpc.last() is SetValue && $rpc.last()->SetValue_0 == Some(pb_MapSetValueRequest { Map: g->0.Map, Mutation: Some(pb_MapMutation { Timestamp: lit(""), Action: lit("update"), Key: key, Value: value, PreviousLeafHash: previousLeaf }) }) && $rpc.last()->SetValue_2 == err
  ensures [promise] err == GoErr::Nil ==> r == box_Option_verifiable_mapSetPromise_(Some(verifiable_mapSetPromise { Map: g, MTL: $rpc.last()->SetValue_1->0.LeafHash }))
  ensures [refused] err != GoErr::Nil ==> r is None

func Log.Entry(g, ctx, idx) (r, err)
  inline
  requires g is Some && g->0.Service is Some
  modifies $rpc
  ensures [asked] asked_once(old($rpc), $rpc) && $rpc.last() is Fetch && $rpc.last()->Fetch_0 == Some(pb_LogFetchEntriesRequest { Log: g->0.Log, First: idx, Last: wi64(idx + 1) })
  ensures [given] err == GoErr::Nil ==> $rpc.last()->Fetch_2 == GoErr::Nil && $rpc.last()->Fetch_1->0.Values == seq![r]
  ensures [refused] $rpc.last()->Fetch_2 != GoErr::Nil ==> err == $rpc.last()->Fetch_2 && r is None

