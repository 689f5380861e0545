------------------------------ MODULE TrieData ------------------------------
(* Recorded executions, merged into a trie: node 1 is the root, Kid[i] are the
   children of node i, Ev[Nev[i]] is the event on the edge to node i, Inner[i]
   says whether unobserved steps may matter at node i. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trie == JsonDeserialize(IOEnv.TRIE)
Kid == Trie.kid
Nev == Trie.nev
Ev == Trie.ev
Inner == Trie.int
Leaf == Trie.leaf
ToSet(s) == {s[i] : i \in 1..Len(s)}
ASSUME \A i \in 1..(Len(Nev) + 1) : TLCSet(Len(Nev) + 2 - i, FALSE)
MarkNode(n) == TLCSet(n, TRUE)
Unreached == {i \in 1..Len(Leaf) : ~TLCGet(Leaf[i])}
Furthest == {i \in 1..Len(Nev) : TLCGet(i)}
TraceResult == PrintT("UNREACHED " \o ToString(Unreached))
=============================================================================
