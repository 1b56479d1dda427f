; ---- libs/cryptography/domain/hashtrees ----
(pkg hashtrees libs/cryptography/domain/hashtrees)
(alias Leaf hashtrees.Leaf)
(alias ParentLeaf hashtrees.ParentLeaf)
(alias HashTree hashtrees.HashTree)
(alias Leaves hashtrees.Leaves)
(alias Compact hashtrees.Compact)

(invariant ParentLeaf (p) (not (isnil (fld p left))) (not (isnil (fld p right))))

; every hash of the (sub)tree is a 64-byte digest
(def wfL ((l Leaf)) Bool
  (or (isnil l) (and (= (len (fld l head)) 64) (wfP (fld l parent)))))
(def wfP ((p ParentLeaf)) Bool
  (or (isnil p) (and (wfL (fld p left)) (wfL (fld p right)))))

; byte encodings
(def encL ((l Leaf)) Bytes
  (if (isnil l) (empty Bytes)
    (++ (fld l head) (if (isnil (fld l parent)) (empty Bytes) (encP (fld l parent))))))
(def encP ((p ParentLeaf)) Bytes
  (if (isnil p) (empty Bytes)
    (++ (le64 (len (encL (fld p left)))) (encL (fld p left)) (encL (fld p right)))))
(def encLs ((ls (Seq Leaf))) Bytes
  (if (= (len ls) 0) (empty Bytes)
    (++ (le64 (len (encL (nth ls 0)))) (encL (nth ls 0)) (encLs (drop ls 1)))))
(def wfLs ((ls (Seq Leaf))) Bool
  (or (= (len ls) 0) (and (wfL (nth ls 0)) (wfLs (drop ls 1)))))

; the leaves of a (sub)tree, left to right
(def flatL ((l Leaf)) (Seq Leaf)
  (if (isnil l) (empty (Seq Leaf)) (if (isnil (fld l parent)) (unit l) (flatP (fld l parent)))))
(def flatP ((p ParentLeaf)) (Seq Leaf)
  (if (isnil p) (empty (Seq Leaf)) (++ (flatL (fld p left)) (flatL (fld p right)))))

; ---- leaf adapter: bytes ----
(func hashtrees.leafAdapter.LeafToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encL ins)))))

(func hashtrees.leafAdapter.ParentLeafToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encP ins)))))

(func hashtrees.leafAdapter.ContentToLeaf
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (l Leaf))
    (when (not (isnil l)) (wfL l) (= content (encL l)))
    (trigger (encL l))
    (ensures (ok err) (= res l))))

(func hashtrees.leafAdapter.ContentToParentLeaf
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (p ParentLeaf))
    (when (not (isnil p)) (wfP p) (= content (encP p)))
    (trigger (encP p))
    (ensures (ok err) (= res p))))

; ---- leaf adapter: leaves ----
(func hashtrees.leafAdapter.LeafToLeaves
  (params ins) (results res err) (fresh res)
  (behavior flat (ensures (ok err) (not (isnil res)) (= (fld res list) (flatL ins)))))
(func hashtrees.leafAdapter.ParentLeafToLeaves
  (params ins) (results res err) (fresh res)
  (behavior flat (ensures (ok err) (not (isnil res)) (= (fld res list) (flatP ins)))))

; ---- leaves adapter: bytes ----
(func hashtrees.leaves.Leaves
  (results res)
  (behavior copy (ensures (not (isnil res)) (= res (fld self list)))))
(func hashtrees.leavesAdapter.ToContent
  (params ins) (results res err)
  (inv ((?o Bytes) ($l (Seq Leaf))) (= (++ ?o (encLs (drop $l k))) (++ (entry ?o) (encLs $l))))
  (behavior enc (ensures (ok err) (= res (++ (le64 (len (fld ins list))) (encLs (fld ins list)))))))
(func hashtrees.leavesAdapter.ToLeaves
  (params content) (results res err)
  (fresh res)
  (inv ((?p Int)) (and (<= 8 ?p) (<= ?p (len content))))
  (inv ((?p Int)) (= (drop content ?p) (encLs (drop gl k))))
  (inv () (wfLs (drop gl k)))
  (inv ((?l (Seq Leaf))) (= ?l (take gl k)))
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (gl (Seq Leaf)))
    (when (>= (len gl) 1) (wfLs gl) (= content (++ (le64 (len gl)) (encLs gl))))
    (trigger (encLs gl))
    (ensures (ok err) (not (isnil res)) (= (fld res list) gl))))

; ---- tree construction ----
(fun bits_and (Int Int) Int)
(fun nextpow2 (Int) Int)
(def pow2 ((n Int)) Bool (if (<= n 1) (= n 1) (and (= (mod n 2) 0) (pow2 (div n 2)))))
(axiom pow2-bits ((a Int) (b Int)) (hyp (>= a 1) (= b (- a 1))) (= (= (bits_and a b) 0) (pow2 a))
  (trigger (bits_and a b)) (why "n & (n-1) is 0 exactly for powers of two (machine arithmetic)"))
(axiom pow2-bits2 ((a Int) (b Int)) (hyp (>= b 1) (= a (- b 1))) (= (= (bits_and a b) 0) (pow2 b))
  (trigger (bits_and a b)) (why "n & (n-1) is 0 exactly for powers of two (machine arithmetic)"))
(axiom nextpow2-pow2 ((n Int)) (hyp (>= n 1)) (and (pow2 (nextpow2 n)) (>= (nextpow2 n) n) (< (nextpow2 n) (* 2 n)))
  (trigger (nextpow2 n)) (why "nextpow2 is the smallest power of two that is at least n"))

; the level above a list of leaves
(def pairs ((l (Seq Leaf))) (Seq Leaf)
  (if (< (len l) 2) (empty (Seq Leaf))
    (++ (unit (mk Leaf (digest (++ (fld (nth l 0) head) (fld (nth l 1) head))) (mk ParentLeaf (nth l 0) (nth l 1))))
        (pairs (drop l 2)))))
(lemma pairs-len ((l (Seq Leaf))) (= (len (pairs l)) (div (len l) 2)) (trigger (pairs l)) (measure (len l)))
(def treeOf ((l (Seq Leaf))) HashTree
  (if (<= (len l) 2)
    (mk HashTree (digest (++ (fld (nth l 0) head) (fld (nth l 1) head))) (mk ParentLeaf (nth l 0) (nth l 1)))
    (treeOf (pairs l))))

; the leaves of each tree of a list
(def flatS ((l (Seq Leaf))) (Seq Leaf)
  (if (= (len l) 0) (empty (Seq Leaf)) (++ (flatL (nth l 0)) (flatS (drop l 1)))))

(lemma flatS-two ((l (Seq Leaf))) (hyp (>= (len l) 2))
  (= (flatS l) (++ (flatL (nth l 0)) (flatL (nth l 1)) (flatS (drop l 2)))) (trigger (flatS l)) (fuel 3))
(lemma pairs-head ((l (Seq Leaf))) (hyp (>= (len l) 2))
  (and (= (drop (pairs l) 1) (pairs (drop l 2)))
       (= (nth (pairs l) 0) (mk Leaf (digest (++ (fld (nth l 0) head) (fld (nth l 1) head))) (mk ParentLeaf (nth l 0) (nth l 1)))))
  (trigger (pairs l) (flatS (pairs l))))
(lemma flatS-pairs ((l (Seq Leaf))) (hyp (= (mod (len l) 2) 0)) (= (flatS (pairs l)) (flatS l)) (trigger (pairs l) (flatS l)) (measure (len l)) (fuel 3))
(lemma flatS-tree ((l (Seq Leaf))) (hyp (>= (len l) 2) (pow2 (len l))) (= (flatP (fld (treeOf l) parent)) (flatS l)) (trigger (treeOf l)) (measure (len l)) (fuel 3))
; leaves without children, one per digest
(def leafs ((hs (Seq Bytes))) (Seq Leaf)
  (if (= (len hs) 0) (empty (Seq Leaf)) (++ (unit (mk Leaf (nth hs 0) (nildef ParentLeaf))) (leafs (drop hs 1)))))
(lemma leafs-len ((hs (Seq Bytes))) (= (len (leafs hs)) (len hs)) (trigger (leafs hs)) (measure (len hs)))
(lemma leafs-head ((hs (Seq Bytes))) (hyp (>= (len hs) 1))
  (and (= (drop (leafs hs) 1) (leafs (drop hs 1))) (= (nth (leafs hs) 0) (mk Leaf (nth hs 0) (nildef ParentLeaf))))
  (trigger (leafs hs)))
(lemma flatS-leafs ((hs (Seq Bytes)) (x (Seq Leaf))) (hyp (= x (leafs hs))) (= (flatS x) x) (trigger (leafs hs) (flatS x)) (measure (len hs)) (fuel 3))
(def digs ((bs (Seq Bytes))) (Seq Bytes)
  (if (= (len bs) 0) (empty (Seq Bytes)) (++ (unit (digest (nth bs 0))) (digs (drop bs 1)))))
(lemma digs-len ((bs (Seq Bytes))) (= (len (digs bs)) (len bs)) (trigger (digs bs)) (measure (len bs)))
(def reps ((h Bytes) (n Int)) (Seq Bytes)
  (if (<= n 0) (empty (Seq Bytes)) (++ (reps h (- n 1)) (unit h))))
(lemma reps-len ((h Bytes) (n Int)) (= (len (reps h n)) (if (<= n 0) 0 n)) (trigger (reps h n)) (measure n))
(def pad2 ((b (Seq Bytes))) (Seq Bytes)
  (if (>= (len b) 2) b (if (= (len b) 1) (++ b (unit (empty Bytes))) (++ (unit (empty Bytes)) (unit (empty Bytes))))))
(def padlen ((n Int)) Int (if (pow2 n) n (nextpow2 n)))
(def padded ((b (Seq Bytes))) (Seq Bytes)
  (++ (digs (pad2 b)) (reps (digest (empty Bytes)) (- (padlen (len (pad2 b))) (len (pad2 b))))))

(func hashtrees.leavesAdapter.createChildrenLeaves
  (params list) (results res err) (fresh res)
  (requires (= (mod (len list) 2) 0))
  (inv ((?o (Seq Leaf))) (= (++ ?o (pairs (drop list (+ k (mod k 2))))) (pairs list)))
  (behavior pairs (ensures (ok err) (not (isnil res)) (= (fld res list) (pairs list)))))

(func hashtrees.leavesAdapter.ToHashTree
  (params ins) (results res err)
  (requires (pow2 (len (fld ins list))) (>= (len (fld ins list)) 2))
  (behavior tree (ensures (ok err) (not (isnil res)) (= res (treeOf (fld ins list))))))

(func hashtrees.builder.Now
  (results res err)
  (modifies (fld self blocks))
  (inv () (= (pad2 (fld self blocks)) (pad2 (old (fld self blocks)))))
  (inv () (<= (len (fld self blocks)) 1125899906842624))
  (inv ((?h (Seq Bytes))) (= (len ?h) (+ k (len (entry ?h)))))
  (inv ((?h (Seq Bytes)) ($b (Seq Bytes))) (= (++ ?h (digs (drop $b k))) (digs $b)))
  (inv ((?h (Seq Bytes))) (= ?h (++ (entry ?h) (reps (digest (empty Bytes)) k))))
  (inv ((?l (Seq Leaf)) ($h (Seq Bytes))) (= (++ ?l (leafs (drop $h k))) (leafs $h)))
  (behavior head
    (when (not (isnil (fld self pHead))) (not (isnil (fld self parent))))
    (ensures (ok err) (= res (mk HashTree (deref (fld self pHead)) (fld self parent)))))
  (behavior blocks
    (only pad2 padlen padded padded-pow2 pow2 digs digs-len reps reps-len leafs leafs-len)
    (when (or (isnil (fld self pHead)) (isnil (fld self parent))) (not (isnil (fld self blocks))) (<= (len (fld self blocks)) 1125899906842624))
    (ensures (ok err) (= res (treeOf (leafs (padded (old (fld self blocks)))))))))

; ---- hash tree and compact adapters ----
(invariant Compact (c) (not (isnil (fld c leaves))))
(invariant HashTree (h) (not (isnil (fld h parent))))
(def encTree ((t HashTree)) Bytes (++ (fld t head) (encP (fld t parent))))
(func hashtrees.adapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encTree ins)))))
(lemma encTree-len ((t HashTree)) (hyp (not (isnil t)) (= (len (fld t head)) 64) (wfP (fld t parent))) (>= (len (encTree t)) 200) (trigger (encTree t)) (fuel 4))
(func hashtrees.adapter.ToHashTree
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (t HashTree))
    (when (not (isnil t)) (= (len (fld t head)) 64) (wfP (fld t parent)) (= content (encTree t)))
    (trigger (encTree t))
    (ensures (ok err) (= res t))))
(func hashtrees.compactAdapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (++ (fld ins head) (le64 (len (fld (fld ins leaves) list))) (encLs (fld (fld ins leaves) list)))))))
(func hashtrees.compactAdapter.ToCompact
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (h Bytes) (gl (Seq Leaf)))
    (when (= (len h) 64) (>= (len gl) 1) (wfLs gl) (= content (++ h (le64 (len gl)) (encLs gl))))
    (ensures (ok err) (not (isnil res)) (= (fld res head) h) (= (fld (fld res leaves) list) gl))))

; ---- views ----
(def levels ((l Leaf)) Int
  (if (isnil l) 0 (if (isnil (fld l parent)) 0 (+ 1 (levels (fld (fld l parent) left))))))
(axiom levels-small ((l Leaf)) (and (>= (levels l) 0) (< (levels l) 4611686018427387904)) (trigger (levels l))
  (why "a chain of leaves in memory has fewer than 2^62 elements"))
(func hashtrees.leaf.Height
  (results res)
  (inv ((?c Int) (?o Leaf)) (= (+ ?c (levels (if (isnil ?o) self ?o))) (levels self)))
  (behavior levels (ensures (= res (levels self)))))
(func hashtrees.hashtree.Height
  (results res)
  (behavior levels (ensures (= res (+ 2 (levels (fld (fld self parent) left)))))))
(func hashtrees.leafAdapter.ParentLeafToHashTree
  (params ins) (results res err)
  (behavior tree (ensures (ok err)
    (= res (mk HashTree (digest (++ (fld (fld ins left) head) (fld (fld ins right) head))) ins)))))
(func hashtrees.compact.Length
  (results res)
  (behavior count (ensures (= res (len (fld (fld self leaves) list))))))
(func hashtrees.adapter.ToLength
  (params ins) (results res err)
  (behavior count (ensures (ok err) (not (isnil res)) (= (deref res) (len (flatP (fld ins parent)))))))
(func hashtrees.adapter.ToCompact
  (params ins) (results res err)
  (behavior leaves (ensures (ok err) (not (isnil res)) (= (fld res head) (fld ins head)) (= (fld (fld res leaves) list) (flatP (fld ins parent))))))

; ---- ordering ----
(define (keyOf x) (hexenc (digest x)))
; the blocks grouped by the text of their digest, each group in input order
(def groups ((m (Seq Bytes)) (n Int)) (Map Str (Seq Bytes))
  (if (<= n 0) (emptymap Str (Seq Bytes))
    (let ((g (groups m (- n 1))) (x (nth m (- n 1))))
      (put g (keyOf x) (++ (get g (keyOf x)) (unit x))))))
; walk the leaves left to right, taking for each the next block of its group
(def ordered ((g (Map Str (Seq Bytes))) (l (Seq Leaf))) (Seq Bytes)
  (if (= (len l) 0) (empty (Seq Bytes))
    (let ((key (hexenc (fld (nth l 0) head))))
      (if (> (len (get g key)) 0)
        (++ (unit (nth (get g key) 0)) (ordered (put g key (drop (get g key) 1)) (drop l 1)))
        (ordered g (drop l 1))))))
(func hashtrees.adapter.ToOrder
  (params ins mixed) (results res err)
  (inv ((?g (Map Str (Seq Bytes)))) (= ?g (groups mixed k)))
  (inv ((?o (Seq Bytes)) (?g (Map Str (Seq Bytes))) ($l (Seq Leaf))) (= (++ ?o (ordered ?g (drop $l k))) (ordered (entry ?g) $l)))
  (behavior order
    (ensures (= (ok err) (= (len (ordered (groups mixed (len mixed)) (flatP (fld ins parent)))) (len mixed)))
      (=> (ok err) (= res (ordered (groups mixed (len mixed)) (flatP (fld ins parent))))))))

(prop C01 (hash.adapter.FromBytes digest) (hash.adapter.FromMultiBytes concat) (hash.adapter.FromString text)
  (hash.Hash.Compare equal) (hash.Hash.Bytes same) (hash.Hash.String hex))
(prop C04 (hashtrees.leafAdapter.LeafToContent enc) (hashtrees.leafAdapter.ParentLeafToContent enc)
  (hashtrees.leafAdapter.ContentToLeaf roundtrip) (hashtrees.leafAdapter.ContentToParentLeaf roundtrip)
  (hashtrees.leavesAdapter.ToContent enc) (hashtrees.leavesAdapter.ToLeaves roundtrip)
  (hashtrees.adapter.ToContent enc) (hashtrees.adapter.ToHashTree roundtrip)
  (hashtrees.compactAdapter.ToContent enc) (hashtrees.compactAdapter.ToCompact roundtrip))
(lemma built-leaves ((hs (Seq Bytes))) (hyp (>= (len hs) 2) (pow2 (len hs)))
  (= (flatP (fld (treeOf (leafs hs)) parent)) (leafs hs)) (trigger (treeOf (leafs hs))))
(lemma padded-pow2 ((b (Seq Bytes))) (and (>= (len (padded b)) 2) (pow2 (len (padded b))) (>= (len (padded b)) (len b)) (<= (len (padded b)) (+ 2 (* 2 (len b))))) (trigger (padded b)))
(lemma digs-nth ((bs (Seq Bytes)) (i Int)) (hyp (<= 0 i) (< i (len bs))) (= (nth (digs bs) i) (digest (nth bs i))) (trigger (nth (digs bs) i)) (trigger (digs bs) (nth bs i)) (measure (len bs)) (terms (nth (digs (drop bs 1)) (- i 1)) (nth (drop bs 1) (- i 1))))
(lemma padded-prefix ((b (Seq Bytes)) (i Int)) (hyp (<= 0 i) (< i (len b))) (= (nth (padded b) i) (digest (nth b i))) (trigger (padded b) (nth b i)) (terms (nth (digs (pad2 b)) i) (nth (pad2 b) i)))
(prop C02 (hashtrees.builder.Now blocks head) (hashtrees.leavesAdapter.ToHashTree tree) (hashtrees.leavesAdapter.createChildrenLeaves pairs)
  (lemmas built-leaves padded-pow2 padded-prefix))
(prop C03 (hashtrees.leaf.Height levels) (hashtrees.hashtree.Height levels) (hashtrees.leafAdapter.LeafToLeaves flat) (hashtrees.leafAdapter.ParentLeafToLeaves flat)
  (hashtrees.leafAdapter.ParentLeafToHashTree tree) (hashtrees.compact.Length count) (hashtrees.adapter.ToLength count) (hashtrees.adapter.ToCompact leaves)
  (hashtrees.leavesAdapter.ToHashTree tree) (lemmas flatS-tree built-leaves))
(prop C05 (hashtrees.adapter.ToOrder order))
