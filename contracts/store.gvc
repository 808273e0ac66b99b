package verifiable
uses merkle, keys, bpath, names

func makeStorageKey(prefix, suffix) (r)
  fresh r
  ensures [concat] r == prefix + suffix

func toIntBinary(i) (r)
  fresh r
  ensures [be64] r == be64(i)

func toDoubleIntBinary(i, j) (r)
  fresh r
  ensures [be64] r == be64(i) + be64(j)

func writeDataByLeafHash(ctx, kr, lt, lh, data) (err)
  requires valid_lt(lt) && data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("user_data/") =~= bkt(100, 0));
  hint assert(lit("mutation_data/") =~= bkt(100, 1));
  hint assert(lit("treehead_data/") =~= bkt(100, 2));
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Data(lt, lh)), PVal::LeafData(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupDataByLeafHash(ctx, kr, lt, lh) (r, err)
  requires valid_lt(lt)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("user_data/") =~= bkt(100, 0));
  hint assert(lit("mutation_data/") =~= bkt(100, 1));
  hint assert(lit("treehead_data/") =~= bkt(100, 2));
  ensures [found] err == GoErr::Nil ==> r is Some && stored(kr, K::Data(lt, lh)) && (rec(kr, K::Data(lt, lh)) is LeafData ==> r->0 == rec(kr, K::Data(lt, lh))->LeafData_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::Data(lt, lh))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func writeLeafNodeByIndex(ctx, kr, lt, idx, data) (err)
  requires valid_lt(lt) && data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("user_leaf/") =~= bkt(108, 0));
  hint assert(lit("mutation_leaf/") =~= bkt(108, 1));
  hint assert(lit("treehead_leaf/") =~= bkt(108, 2));
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Leaf(lt, idx)), PVal::LeafNode(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupLeafNodeByIndex(ctx, kr, lt, idx) (r, err)
  requires valid_lt(lt)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("user_leaf/") =~= bkt(108, 0));
  hint assert(lit("mutation_leaf/") =~= bkt(108, 1));
  hint assert(lit("treehead_leaf/") =~= bkt(108, 2));
  ensures [found] err == GoErr::Nil ==> r is Some && stored(kr, K::Leaf(lt, idx)) && (rec(kr, K::Leaf(lt, idx)) is LeafNode ==> r->0 == rec(kr, K::Leaf(lt, idx))->LeafNode_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::Leaf(lt, idx))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func writeTreeNodeByRange(ctx, kr, lt, a, b, data) (err)
  requires valid_lt(lt) && data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("user_node/") =~= bkt(110, 0));
  hint assert(lit("mutation_node/") =~= bkt(110, 1));
  hint assert(lit("treehead_node/") =~= bkt(110, 2));
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Node(lt, a, b)), PVal::TreeNode(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupTreeNodeByRange(ctx, kr, lt, a, b) (r, err)
  requires valid_lt(lt)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("user_node/") =~= bkt(110, 0));
  hint assert(lit("mutation_node/") =~= bkt(110, 1));
  hint assert(lit("treehead_node/") =~= bkt(110, 2));
  ensures [found] err == GoErr::Nil ==> r is Some && stored(kr, K::Node(lt, a, b)) && (rec(kr, K::Node(lt, a, b)) is TreeNode ==> r->0 == rec(kr, K::Node(lt, a, b))->TreeNode_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::Node(lt, a, b))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func writeLogRootHashBySize(ctx, kr, lt, size, data) (err)
  requires valid_lt(lt) && data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("user_tree/") =~= bkt(116, 0));
  hint assert(lit("mutation_tree/") =~= bkt(116, 1));
  hint assert(lit("treehead_tree/") =~= bkt(116, 2));
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Root(lt, size)), PVal::LogTreeHash(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupLogRootHashBySize(ctx, kr, lt, size) (r, err)
  requires valid_lt(lt)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("user_tree/") =~= bkt(116, 0));
  hint assert(lit("mutation_tree/") =~= bkt(116, 1));
  hint assert(lit("treehead_tree/") =~= bkt(116, 2));
  ensures [found] err == GoErr::Nil ==> r is Some && stored(kr, K::Root(lt, size)) && (rec(kr, K::Root(lt, size)) is LogTreeHash ==> r->0 == rec(kr, K::Root(lt, size))->LogTreeHash_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::Root(lt, size))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func writeIndexByLeafHash(ctx, kr, lt, lh, data) (err)
  requires valid_lt(lt) && data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("user_index/") =~= bkt(105, 0));
  hint assert(lit("mutation_index/") =~= bkt(105, 1));
  hint assert(lit("treehead_index/") =~= bkt(105, 2));
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Index(lt, lh)), PVal::EntryIndex(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupIndexByLeafHash(ctx, kr, lt, lh) (r, err)
  requires valid_lt(lt)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("user_index/") =~= bkt(105, 0));
  hint assert(lit("mutation_index/") =~= bkt(105, 1));
  hint assert(lit("treehead_index/") =~= bkt(105, 2));
  ensures [found] err == GoErr::Nil ==> r is Some && stored(kr, K::Index(lt, lh)) && (rec(kr, K::Index(lt, lh)) is EntryIndex ==> r->0 == rec(kr, K::Index(lt, lh))->EntryIndex_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::Index(lt, lh))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func writeMapHash(ctx, kr, number, path, data) (err)
  requires data is Some
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("map_node/") =~= map_bkt());
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::MapNode(number, path)), PVal::MapNode(data->0))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func lookupMapHash(ctx, kr, number, path) (r, err)
  modifies $fault
  fresh r
  hint reveal(enc);
  hint assert(lit("map_node/") =~= map_bkt());
  ensures [root0] number == 0 && bp_len(path) == 0 ==> err == GoErr::Nil && r is Some && r->0 == (pb_MapNode { LeafHash: Seq::empty(), Path: Seq::empty(), LeftNumber: 0, LeftHash: Seq::empty(), RightNumber: 0, RightHash: Seq::empty() }) && $fault == old($fault)
  ensures [found] !(number == 0 && bp_len(path) == 0) && err == GoErr::Nil ==> r is Some && stored(kr, K::MapNode(number, path)) && (rec(kr, K::MapNode(number, path)) is MapNode ==> r->0 == rec(kr, K::MapNode(number, path))->MapNode_0)
  ensures [absent] err == named_err(verifiable.ErrNoSuchKey) ==> !stored(kr, K::MapNode(number, path))
  ensures [fault] $fault == (old($fault) || !(err == GoErr::Nil || err == named_err(verifiable.ErrNoSuchKey)))

func WriteObjectSize(ctx, kr, size) (err)
  modifies kr, $fault
  hint reveal(enc);
  hint assert(lit("metadata/size") =~= size_key());
  ensures [written] err == GoErr::Nil ==> kr == old(kr).insert(enc(K::Size), PVal::ObjectSize(pb_ObjectSize { Size: size }))
  ensures [untouched] err != GoErr::Nil ==> kr == old(kr)
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func ReadObjectSize(ctx, kr) (n, err)
  modifies $fault
  hint reveal(enc);
  hint assert(lit("metadata/size") =~= size_key());
  ensures [size] err == GoErr::Nil ==> ((stored(kr, K::Size) ==> rec(kr, K::Size) is ObjectSize) ==> n == size_of(kr))
  ensures [fault] $fault == (old($fault) || err != GoErr::Nil)

func logBucket(log) (r, err)
  requires log is Some && log->0.Account is Some
  fresh r
  ensures [namespace] err == GoErr::Nil ==> r == ref_ns(log->0.Account->0.Id, log->0.Name, log->0.LogType)
  ensures [complete] ref_ns_ok(log->0.Account->0.Id, log->0.Name, log->0.LogType) ==> err == GoErr::Nil

func mapBucket(vmap) (r, err)
  requires vmap is Some && vmap->0.Account is Some
  fresh r
  ensures [namespace] err == GoErr::Nil ==> r == map_ns(vmap->0.Account->0.Id, vmap->0.Name)
  ensures [complete] map_ns_ok(vmap->0.Account->0.Id, vmap->0.Name) ==> err == GoErr::Nil
