package server/grpc
uses merkle, rpc
ghost $rpc Seq<Rpc>

extern pb.VerifiableDataStructuresServiceClient.LogAddEntry(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::AddEntry(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.LogFetchEntries(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Fetch(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.LogTreeHash(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::TreeHash(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.LogInclusionProof(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Inclusion(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.LogConsistencyProof(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::Consistency(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.MapSetValue(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::SetValue(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.MapGetValue(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::GetValue(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

extern pb.VerifiableDataStructuresServiceClient.MapTreeHash(c, ctx, in, opts) (r, err)
  modifies $rpc
  ensures $rpc == old($rpc).push(Rpc::MapHash(in, r, err))
  ensures err == GoErr::Nil ==> r is Some

func wrapSillyClientAsServer.LogAddEntry(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::AddEntry(q, r, err))

func wrapSillyClientAsServer.LogFetchEntries(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::Fetch(q, r, err))

func wrapSillyClientAsServer.LogTreeHash(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::TreeHash(q, r, err))

func wrapSillyClientAsServer.LogInclusionProof(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::Inclusion(q, r, err))

func wrapSillyClientAsServer.LogConsistencyProof(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::Consistency(q, r, err))

func wrapSillyClientAsServer.MapSetValue(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::SetValue(q, r, err))

func wrapSillyClientAsServer.MapGetValue(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::GetValue(q, r, err))

func wrapSillyClientAsServer.MapTreeHash(w, ctx, q) (r, err)
  requires w is Some && w->0.Client is Some
  modifies $rpc
  ensures [passed] $rpc == old($rpc).push(Rpc::MapHash(q, r, err))

