package verifiable
uses merkle, logtree, smt, jsonleaf, client

func VerifyLogInclusionProof(self, leafHash, head) (err)
  requires self is Some && head is Some
  ensures [exact] (err == GoErr::Nil) == (self->0.TreeSize == head->0.TreeSize && 0 <= self->0.LeafIndex && self->0.LeafIndex < self->0.TreeSize && hashes(self->0.AuditPath) && head->0.RootHash.len() == 32 && inc_fold(self->0.LeafIndex, self->0.TreeSize, self->0.AuditPath, leafHash) == Some(head->0.RootHash))
  ensures [valid] err == GoErr::Nil ==> inc_valid(self, leafHash, head->0)
  loop 1
    vars fn: int64; sn: int64; r: []byte
    invariant 0 <= fn && fn <= sn
    invariant forall|q: int| 0 <= q && q < $i ==> (#[trigger] $s[q]).len() == 32
    invariant inc_fold(self->0.LeafIndex, self->0.TreeSize, self->0.AuditPath, leafHash) == inc_fold(fn, sn + 1, rest(self->0.AuditPath, $i), r)
    hint rest_all(self->0.AuditPath);
    hint if 1 <= pre(sn) { inc_step(pre(fn), pre(sn), self->0.AuditPath, pre($i), pre(r)); }
  loop 2
    vars fn: int64; sn: int64
    invariant 0 < fn && fn <= sn && (fn % 2 == 1 || fn == sn)
    invariant inc_fold(self->0.LeafIndex, self->0.TreeSize, self->0.AuditPath, leafHash) == inc_climb(fn, sn, rest(self->0.AuditPath, $i + 1), r)
    decreases fn

func VerifyLogConsistencyProof(self, first, second) (err)
  requires self is Some && first is Some && second is Some
  let CF = cons_fold(self->0.FromSize, self->0.TreeSize, self->0.AuditPath, true, first->0.RootHash)
  ensures [exact] (err == GoErr::Nil) == (first->0.TreeSize == self->0.FromSize && second->0.TreeSize == self->0.TreeSize && 0 < self->0.FromSize && self->0.FromSize < self->0.TreeSize && hashes(self->0.AuditPath) && first->0.RootHash.len() == 32 && second->0.RootHash.len() == 32 && CF == Some((first->0.RootHash, second->0.RootHash)))
  ensures [valid] err == GoErr::Nil ==> cons_valid(self, first->0, second->0)
  loop 1
    invariant forall|q: int| 0 <= q && q < $i ==> (#[trigger] $s[q]).len() == 32
  loop 2
    vars fn: int64; sn: int64; proof: [][]byte
    invariant 0 <= fn && fn < sn
    invariant CF == cons_fold(fn + 1, sn + 1, proof, false, first->0.RootHash)
    decreases fn
    hint cons_seed(self->0.FromSize, self->0.TreeSize, self->0.AuditPath, first->0.RootHash);
    hint if is_p2(self->0.FromSize) { assert(proof =~= seq![first->0.RootHash] + self->0.AuditPath); }
    hint if pre(fn) % 2 == 1 { cons_up(pre(fn) + 1, pre(sn) + 1, proof, first->0.RootHash); }
    hint if pre(fn) % 2 == 0 { cons_two(pre(fn) + 1, pre(sn) + 1, proof, first->0.RootHash); }
  loop 3
    vars fn: int64; sn: int64; fr: []byte; sr: []byte
    invariant 0 <= fn && fn <= sn
    invariant CF == two_fold(fn, sn + 1, rest($s, $i), fr, sr)
    hint rest_all($s);
    hint assert(proof.drop_first() =~= $s);
    hint if 1 <= pre(sn) { two_step(pre(fn), pre(sn), $s, pre($i), pre(fr), pre(sr)); }
  loop 4
    vars fn: int64; sn: int64
    invariant 0 < fn && fn <= sn && (fn % 2 == 1 || fn == sn)
    invariant CF == two_climb(fn, sn, rest($s, $i + 1), fr, sr)
    decreases fn

func VerifyMapInclusionProof(self, key, head) (err)
  requires self is Some && head is Some
  let SZ = (if head->0.MutationLog is Some { head->0.MutationLog->0.TreeSize } else { 0 })
  let LEAF = (if self->0.Value is Some { self->0.Value->0.LeafInput } else { Seq::<u8>::empty() })
  hint map_up_len(pbits(sha(key)), self->0.AuditPath, 256, leaf_hash(LEAF));
  ensures [exact] (err == GoErr::Nil) == (self->0.TreeSize == SZ && self->0.AuditPath.len() == 256 && map_up(pbits(sha(key)), self->0.AuditPath, 256, leaf_hash(LEAF)) == head->0.RootHash)
  ensures [valid] err == GoErr::Nil ==> get_valid(self, key, head->0)
  loop 1
    vars t: []byte; i: int
    invariant -1 <= i && i <= 255
    invariant map_up(pbits(sha(key)), self->0.AuditPath, 256, leaf_hash(LEAF)) == map_up(pbits(sha(key)), self->0.AuditPath, i + 1, t)
    decreases i + 1
