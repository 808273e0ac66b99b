package storage/memory
uses merkle, kv
ghost $out Out
ghost $bmaps Map<int, Map<Seq<u8>, Option<Seq<u8>>>>

// a read gives what was last written under exactly that key, or says that there is nothing
func memoryThing.Get(db, ctx, key, value) (err)
  requires db is Some && value is Some
  let M = $bmaps[db->0.Data]
  modifies $out
  ensures [absent] db->0.Data == 0 || !M.dom().contains(key) ==> err == named_err(verifiable.ErrNoSuchKey) && $out == old($out)
  ensures [found] db->0.Data != 0 && M.dom().contains(key) ==> $out == Out::Bytes(bval(M[key]), err)

// a write changes exactly that key, and nil deletes it
func memoryThing.Set(db, ctx, key, value) (err)
  requires db is Some
  let D = db->0.Data
  modifies $bmaps
  ensures [written] err == GoErr::Nil && value is Some ==> D != 0 && $bmaps == old($bmaps).insert(D, old($bmaps)[D].insert(key, $bmaps[D][key])) && bval($bmaps[D][key]) == msg_enc(value->0)
  ensures [deleted] err == GoErr::Nil && value is None ==> D != 0 && $bmaps == old($bmaps).insert(D, old($bmaps)[D].remove(key))
  ensures [refused] err != GoErr::Nil ==> $bmaps == old($bmaps)
  ensures [stores] D != 0 && value is None ==> err == GoErr::Nil

ghost $mmaps Map<int, Map<Seq<u8>, int>>
ghost $lock Lk
ghost $during Lk
ghost $at Map<int, Map<Seq<u8>, Option<Seq<u8>>>>

// the function runs once, on the namespace's own map, under a shared lock
func TransientStorage.ExecuteReadOnly(bbs, ctx, namespace, f) (err)
  uses memkv
  requires bbs is Some && f is Some && $lock is Free && maps_apart($mmaps, $bmaps, bbs->0.data)
  guarded data
  let H = ns_map($mmaps, bbs->0.data, hex_enc(namespace))
  modifies $bmaps, $lock, $during, $at, $calls_f
  ensures [once] $calls_f.len() == 1 && $calls_f[0].1 == err
  ensures [handle] $calls_f[0].0 == box_Option_memory_memoryThing_(Some(memory_memoryThing { Data: H }))
  ensures [content] $at == old($bmaps)
  ensures [locked] $during is Shared
  ensures [released] $lock is Free
  ensures [others] forall|i: int| i != H ==> #[trigger] $bmaps[i] == old($bmaps)[i]
  ensures [apart] maps_apart($mmaps, $bmaps, bbs->0.data)

// the function runs once, on the namespace's own map, under an exclusive lock
func TransientStorage.ExecuteUpdate(bbs, ctx, namespace, f) (err)
  uses memkv
  requires bbs is Some && f is Some && $lock is Free && maps_apart($mmaps, $bmaps, bbs->0.data)
  guarded data
  let K = hex_enc(namespace)
  let H0 = ns_map(old($mmaps), old(bbs)->0.data, K)
  let R = ns_map($mmaps, bbs->0.data, K)
  modifies bbs, $bmaps, $mmaps, $lock, $during, $at, $calls_f
  ensures [once] $calls_f.len() == 1 && $calls_f[0].1 == err
  ensures [handle] ns_map($mmaps, bbs->0.data, K) != 0 && $calls_f[0].0 == box_Option_memory_memoryThing_(Some(memory_memoryThing { Data: ns_map($mmaps, bbs->0.data, K) }))
  ensures [same] H0 != 0 ==> ns_map($mmaps, bbs->0.data, K) == H0 && $at[H0] == old($bmaps)[H0]
  ensures [new] H0 == 0 ==> $at[ns_map($mmaps, bbs->0.data, K)] == Map::<Seq<u8>, Option<Seq<u8>>>::empty()
  hint hex_inj_all();
  ensures [others] forall|n: Seq<u8>| n != namespace ==> #[trigger] ns_map($mmaps, bbs->0.data, hex_enc(n)) == ns_map(old($mmaps), old(bbs)->0.data, hex_enc(n))
  ensures [untouched] forall|i: int| i != ns_map($mmaps, bbs->0.data, K) && #[trigger] old($bmaps).dom().contains(i) ==> $bmaps.dom().contains(i) && $bmaps[i] == old($bmaps)[i]
  ensures [locked] $during is Excl
  ensures [released] $lock is Free
  ensures [apart] maps_apart($mmaps, $bmaps, bbs->0.data)
