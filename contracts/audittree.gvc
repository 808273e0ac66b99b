package verifiable
uses merkle, logtree, stack, keys, bpath, smt, logstore, maptree, mapset, audittree
heap mapAuditNode $mem

func mapAuditNode.CalcHash(node) (r)
  given aa: At; cc: Cn; qq: Seq<bool>
  requires at_node($mem, aa, cc, qq, node)
  modifies $mem
  decreases 256 - $mem[node].Depth
  hint node_facts(aa, cc, qq, node);
  hint rehashed_any($mem, aa, cc, qq, node);
  hint only_hashes_then(old($mem), $mem);
  ensures [value] r == smt(cc, qq)
  ensures [kept] at_node($mem, aa, cc, qq, node)
  ensures [frame] only_hashes(old($mem), $mem)
  loop 1
    vars i: int
    invariant $mem[node].Depth <= i && i <= 256
    invariant $mem =~= old($mem).insert(node, verifiable_mapAuditNode { Hash: kup(old($mem)[node].KeyPath, old($mem)[node].LeafHash, i), ..old($mem)[node] })
    decreases i

func addMutationToTree(root, mu) (r, err)
  given aa: At; cc: Cn
  requires at_node($mem, aa, cc, Seq::empty(), root)
  requires [api] mu is Some
  requires [spread] keys_spread()
  modifies $mem
  hint key_path_len(mu->0.Key);
  hint if has(keyPath) { assert(keyPath =~= key_bits(mu->0.Key)); }
  hint start_down($mem, aa, cc, key_bits(mu->0.Key), root);
  hint if has(head) { start_split($mem, aa, cc, key_bits(mu->0.Key), root, head); }
  hint split_facts(cc, key_bits(mu->0.Key), root);
  hint if has(head) { done_there($mem, aa, cc, key_bits(mu->0.Key), root, head); }
  hint if has(head) { done_hung($mem, cc, key_bits(mu->0.Key), root, head); }
  before mapAuditNode.CalcHash tree($mem, root, mutated(cc, mu->0))
  ensures [value] err is Nil ==> r == smt(mutated(cc, mu->0), Seq::empty())
  ensures [known] err is Nil ==> applicable(cc, mu->0)
  ensures [complete] applicable(cc, mu->0) && (mu->0.Action == lit("delete") || mu->0.Value is Some) ==> err is Nil
  ensures [kept] err is Nil ==> tree($mem, root, mutated(cc, mu->0))
  loop 1
    vars head: int; next: int
    invariant going($mem, aa, cc, key_bits(mu->0.Key), root, head, next)
    hint step_down(pre($mem), aa, cc, key_bits(mu->0.Key), root, pre(head), pre(next));
    hint path_kid($mem, aa, cc, key_bits(mu->0.Key), root, head);
    decreases left_to_go($mem, next)
  loop 2
    vars head: int; next: int
    invariant splitting($mem, cc, key_bits(mu->0.Key), root, head, next)
    hint split_step(pre($mem), $mem, cc, key_bits(mu->0.Key), root, pre(head), pre(next), next);
    hint split_facts(cc, key_bits(mu->0.Key), root);
    decreases 256 - $mem[next].Depth
