; ---- libs/databases/domain/references ----
(pkg references libs/databases/domain/references)
(alias Pointer references.Pointer)
(alias ContentKey references.ContentKey)
(alias ContentKeys references.ContentKeys)
(alias Mine references.Mine)
(alias Commit references.Commit)
(alias Commits references.Commits)
(alias Reference references.Reference)

(define (maxi a b) (if (< a b) b a))

; ---- pointer ----
(def wfPtr ((p Pointer)) Bool (and (u64 (fld p from)) (u64 (fld p length)) (>= (fld p length) 1)))
(def encPtr ((p Pointer)) Bytes (++ (le64 (fld p from)) (le64 (fld p length))))
(func references.pointerAdapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encPtr ins)))))
(func references.pointerAdapter.ToPointer
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (p Pointer))
    (when (not (isnil p)) (wfPtr p) (= content (encPtr p)))
    (trigger (encPtr p))
    (ensures (ok err) (= res p))))

; ---- content keys ----
(invariant ContentKey (k) (not (isnil (fld k content))))
(def wfKey ((k ContentKey)) Bool
  (and (= (len (fld k hash)) 64) (= (len (fld k commit)) 64) (u64 (fld k kind)) (wfPtr (fld k content))))
(def encKey ((k ContentKey)) Bytes (++ (fld k hash) (le64 (fld k kind)) (encPtr (fld k content)) (fld k commit)))
(def wfKeys ((l (Seq ContentKey))) Bool
  (or (= (len l) 0) (and (wfKey (nth l 0)) (wfKeys (drop l 1)))))
(def encKeys ((l (Seq ContentKey))) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (encKey (nth l 0)) (encKeys (drop l 1)))))
(lemma encKeys-len ((l (Seq ContentKey))) (hyp (wfKeys l)) (= (len (encKeys l)) (* 152 (len l))) (trigger (encKeys l)) (measure (len l)))

(func references.contentKeyAdapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encKey ins)))))
(func references.contentKeyAdapter.ToContentKey
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (k ContentKey))
    (when (not (isnil k)) (wfKey k) (= content (encKey k)))
    (trigger (encKey k))
    (ensures (ok err) (= res k))))
(func references.contentKeysAdapter.ToContent
  (params ins) (results res err)
  (inv ((?o Bytes) ($l (Seq ContentKey))) (= (++ ?o (encKeys (drop $l k))) (++ (entry ?o) (encKeys $l))))
  (behavior enc (ensures (ok err) (= res (++ (le64 (len (fld ins list))) (encKeys (fld ins list)))))))
(func references.contentKeysAdapter.ToContentKeys
  (params content) (results res err)
  (inv () (= (drop content (+ 8 (* 152 k))) (encKeys (drop gl k))))
  (inv () (wfKeys (drop gl k)))
  (inv ((?l (Seq ContentKey))) (= ?l (take gl k)))
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (only wfKey wfKeys encKey encKeys encKeys-len wfPtr encPtr)
    (ghost (gl (Seq ContentKey)))
    (when (>= (len gl) 1) (wfKeys gl) (= content (++ (le64 (len gl)) (encKeys gl))))
    (trigger (encKeys gl))
    (ensures (ok err) (not (isnil res)) (= (fld res list) gl))))

; ---- commits ----
(fun beint (Int) Bytes)
(fun unbe (Bytes) Int (nonneg))
(fun dec10 (Int) Str)
(define (u64of n) (if (< n 0) (+ n 18446744073709551616) n))
(invariant Commit (c) (not (isnil (fld c values))))
(invariant Mine (m) (not (isnil (fld m pProof))))
(def commitHash ((v HashTree) (t Int) (p (Ptr Bytes)) (m (Ptr Int))) Bytes
  (digest (++ (fld v head) (bytes (dec10 t))
    (if (isnil p) (empty Bytes) (deref p))
    (if (isnil m) (empty Bytes) (beint (deref m))))))
(def score ((b Bytes) (v Int)) Int
  (if (= (len b) 0) 0 (if (= (nth b 0) v) (+ 1 (score (drop b 1) v)) 0)))
(def proofOf ((m Mine)) (Ptr Int) (if (isnil m) (nilptr Int) (fld m pProof)))
(def wfCommit ((c Commit) (mv Int)) Bool
  (and (not (isnil c)) (s64 (fld c createdOn)) (= (len (fld (fld c values) head)) 64) (wfP (fld (fld c values) parent))
    (or (isnil (fld c pParent)) (= (len (deref (fld c pParent))) 64))
    (= (fld c hash) (commitHash (fld c values) (fld c createdOn) (fld c pParent) (proofOf (fld c mine))))
    (or (isnil (fld c mine))
        (and (>= (deref (fld (fld c mine) pProof)) 0)
             (= (fld (fld c mine) result) (digest (++ (fld c hash) (beint (deref (fld (fld c mine) pProof))))))
             (= (fld (fld c mine) score) (score (fld (fld c mine) result) mv))))))
(def encProof ((m Mine)) Bytes
  (if (isnil m) (empty Bytes)
    (++ (unit 0) (le64 (len (beint (deref (fld m pProof))))) (beint (deref (fld m pProof))))))
(def encParent ((p (Ptr Bytes))) Bytes (if (isnil p) (empty Bytes) (++ (unit 1) (deref p))))
(def encCommit ((c Commit)) Bytes
  (++ (le64 (u64of (fld c createdOn))) (le64 (len (encTree (fld c values)))) (encTree (fld c values))
      (encProof (fld c mine)) (encParent (fld c pParent))))

(func references.commitBuilder.Now
  (results res err)
  (requires (=> (not (isnil (fld self pCreatedOn))) (s64 (deref (fld self pCreatedOn)))))
  (fuel 6)
  (inv ((?s Int) ($b Bytes)) (= (+ ?s (score (drop $b k) (fld self miningValue))) (score $b (fld self miningValue))))
  (behavior build
    (ensures (= (ok err) (and (not (isnil (fld self values))) (not (isnil (fld self pCreatedOn)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res hash) (commitHash (fld self values) (deref (fld self pCreatedOn)) (fld self pParent) (fld self pProof)))
        (= (fld res values) (fld self values))
        (= (fld res createdOn) (deref (fld self pCreatedOn)))
        (= (fld res pParent) (fld self pParent))
        (= (isnil (fld res mine)) (isnil (fld self pProof)))
        (=> (not (isnil (fld res mine)))
            (and (= (fld (fld res mine) pProof) (fld self pProof))
                 (= (fld (fld res mine) result) (digest (++ (fld res hash) (beint (deref (fld self pProof))))))
                 (= (fld (fld res mine) score) (score (fld (fld res mine) result) (fld self miningValue))))))))))
(func references.commitAdapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encCommit ins)))))
(func references.commitAdapter.ToCommit
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip-plain
    (ghost (c Commit))
    (when (not (isnil c)) (isnil (fld c mine)) (isnil (fld c pParent)) (wfCommit c (fld (fld self builder) miningValue)) (= content (encCommit c)))
    (trigger (encCommit c))
    (ensures (ok err) (= res c)))
  (behavior roundtrip-mined
    (ghost (c Commit))
    (when (not (isnil c)) (not (isnil (fld c mine))) (isnil (fld c pParent)) (wfCommit c (fld (fld self builder) miningValue)) (= content (encCommit c)))
    (trigger (encCommit c))
    (ensures (ok err) (= res c)))
  (behavior roundtrip-child
    (ghost (c Commit))
    (when (not (isnil c)) (isnil (fld c mine)) (not (isnil (fld c pParent))) (wfCommit c (fld (fld self builder) miningValue)) (= content (encCommit c)))
    (trigger (encCommit c))
    (ensures (ok err) (= res c)))
  (behavior roundtrip-both
    (ghost (c Commit))
    (when (not (isnil c)) (not (isnil (fld c mine))) (not (isnil (fld c pParent))) (wfCommit c (fld (fld self builder) miningValue)) (= content (encCommit c)))
    (trigger (encCommit c))
    (ensures (ok err) (= res c))))
(def encCommits ((l (Seq Commit))) Bytes
  (if (= (len l) 0) (empty Bytes)
    (++ (le64 (len (encCommit (nth l 0)))) (encCommit (nth l 0)) (encCommits (drop l 1)))))
(def wfCommits ((l (Seq Commit)) (mv Int)) Bool
  (or (= (len l) 0) (and (wfCommit (nth l 0) mv) (wfCommits (drop l 1) mv))))
(lemma encCommit-len ((c Commit) (mv Int)) (hyp (wfCommit c mv)) (>= (len (encCommit c)) 216) (trigger (encCommit c) (wfCommit c mv)))
(func references.commitsAdapter.ToContent
  (params ins) (results res err)
  (inv ((?o Bytes) ($l (Seq Commit))) (= (++ ?o (encCommits (drop $l k))) (++ (entry ?o) (encCommits $l))))
  (behavior enc (ensures (ok err) (= res (encCommits (fld ins list))))))
(func references.commitsAdapter.ToCommits
  (params content) (results res err)
  (inv ((?i Int)) (and (<= 0 ?i) (<= ?i (len content))))
  (inv ((?i Int)) (= (drop content ?i) (encCommits (drop gl k))))
  (inv () (wfCommits (drop gl k) (fld (fld (fld self adapter) builder) miningValue)))
  (inv ((?l (Seq Commit))) (= ?l (take gl k)))
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (only wfCommits encCommits encCommit-len)
    (ghost (gl (Seq Commit)))
    (when (>= (len gl) 1) (wfCommits gl (fld (fld (fld self adapter) builder) miningValue)) (= content (encCommits gl)))
    (trigger (encCommits gl))
    (ensures (ok err) (not (isnil res)) (= (fld res list) gl))))

; ---- reference ----
(invariant Reference (r) (not (isnil (fld r contentKeys))) (not (isnil (fld r commits))))
(def encKeySet ((l (Seq ContentKey))) Bytes (++ (le64 (len l)) (encKeys l)))
(def encReference ((kl (Seq ContentKey)) (cl (Seq Commit))) Bytes
  (++ (le64 (len (encKeySet kl))) (encKeySet kl) (le64 (len (encCommits cl))) (encCommits cl)))
(func references.adapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encReference (fld (fld ins contentKeys) list) (fld (fld ins commits) list))))))
(func references.adapter.ToReference
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (only encReference encKeySet encKeys-len wfKeys encCommits encCommit-len wfCommits)
    (ghost (kl (Seq ContentKey)) (cl (Seq Commit)))
    (when (>= (len kl) 1) (>= (len cl) 1) (wfKeys kl)
      (wfCommits cl (fld (fld (fld (fld self commitsAdapter) adapter) builder) miningValue)) (= content (encReference kl cl)))
    (trigger (encReference kl cl))
    (ensures (ok err) (not (isnil res)) (= (fld (fld res contentKeys) list) kl) (= (fld (fld res commits) list) cl))))

; ---- views of the content keys and of the commits ----
(def keyIndex ((l (Seq ContentKey)) (n Int)) (Map Str ContentKey)
  (if (<= n 0) (emptymap Str ContentKey) (put (keyIndex l (- n 1)) (hexenc (fld (nth l (- n 1)) hash)) (nth l (- n 1)))))
(def lastKey ((l (Seq ContentKey)) (n Int) (s Str)) Int
  (if (<= n 0) -1 (if (= (hexenc (fld (nth l (- n 1)) hash)) s) (- n 1) (lastKey l (- n 1) s))))
(lemma keyIndex-get ((l (Seq ContentKey)) (n Int) (s Str)) (hyp (<= n (len l)))
  (and (< (lastKey l n s) (maxi n 0)) (= (haskey (keyIndex l n) s) (>= (lastKey l n s) 0)) (=> (>= (lastKey l n s) 0) (= (get (keyIndex l n) s) (nth l (lastKey l n s)))))
  (trigger (lastKey l n s)) (measure n))
(invariant ContentKeys (c) (>= (len (fld c list)) 1) (= (fld c mp) (keyIndex (fld c list) (len (fld c list)))))
(def commitIndex ((l (Seq Commit)) (n Int)) (Map Str Commit)
  (if (<= n 0) (emptymap Str Commit) (put (commitIndex l (- n 1)) (hexenc (fld (nth l (- n 1)) hash)) (nth l (- n 1)))))
(def lastCommit ((l (Seq Commit)) (n Int) (s Str)) Int
  (if (<= n 0) -1 (if (= (hexenc (fld (nth l (- n 1)) hash)) s) (- n 1) (lastCommit l (- n 1) s))))
(lemma commitIndex-get ((l (Seq Commit)) (n Int) (s Str)) (hyp (<= n (len l)))
  (and (< (lastCommit l n s) (maxi n 0)) (= (haskey (commitIndex l n) s) (>= (lastCommit l n s) 0)) (=> (>= (lastCommit l n s) 0) (= (get (commitIndex l n) s) (nth l (lastCommit l n s)))))
  (trigger (lastCommit l n s)) (measure n))
(invariant Commits (c) (>= (len (fld c list)) 1) (= (fld c mp) (commitIndex (fld c list) (len (fld c list)))))

(func references.contentContentKeysBuilder.Now
  (results res err)
  (modifies (fld self list))
  (inv ((?m (Map Str ContentKey)) ($l (Seq ContentKey))) (= ?m (keyIndex $l k)))
  (behavior build
    (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res)) (= (fld res list) (old (fld self list))))))))
(func references.commitsBuilder.Now
  (results res err)
  (modifies (fld self list))
  (inv ((?m (Map Str Commit)) ($l (Seq Commit))) (= ?m (commitIndex $l k)))
  (behavior build
    (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res)) (= (fld res list) (old (fld self list))))))))
(func references.contentKeys.Fetch
  (params h) (results res err)
  (behavior lookup (ensures
    (= (ok err) (>= (lastKey (fld self list) (len (fld self list)) (hexenc h)) 0))
    (=> (ok err) (= res (nth (fld self list) (lastKey (fld self list) (len (fld self list)) (hexenc h))))))))
(func references.commits.Fetch
  (params h) (results res err)
  (behavior lookup (ensures
    (= (ok err) (>= (lastCommit (fld self list) (len (fld self list)) (hexenc h)) 0))
    (=> (ok err) (= res (nth (fld self list) (lastCommit (fld self list) (len (fld self list)) (hexenc h))))))))
(func references.commits.Latest
  (results res)
  (behavior last (ensures (= res (nth (fld self list) (- (len (fld self list)) 1))))))
(def ofKind ((l (Seq ContentKey)) (kd Int)) (Seq ContentKey)
  (if (= (len l) 0) (empty (Seq ContentKey))
    (++ (if (= (fld (nth l 0) kind) kd) (unit (nth l 0)) (empty (Seq ContentKey))) (ofKind (drop l 1) kd))))
(func references.contentKeys.ListByKind
  (params kind) (results res)
  (inv ((?o (Seq ContentKey)) ($l (Seq ContentKey))) (= (++ ?o (ofKind (drop $l k) kind)) (ofKind $l kind)))
  (behavior filter (ensures (= res (ofKind (fld self list) kind)))))
(define (endOf x) (+ (fld (fld x content) from) (fld (fld x content) length)))
(def maxEnd ((l (Seq ContentKey))) Int (if (= (len l) 0) 0 (maxi (endOf (nth l 0)) (maxEnd (drop l 1)))))
(def smallEnds ((l (Seq ContentKey))) Bool
  (or (= (len l) 0) (and (wfPtr (fld (nth l 0) content)) (< (endOf (nth l 0)) 9223372036854775808) (smallEnds (drop l 1)))))
(func references.contentKeys.Next
  (results res)
  (inv ((?b Int)) (>= ?b 0))
  (inv (($l (Seq ContentKey))) (smallEnds (drop $l k)))
  (inv ((?b Int) ($l (Seq ContentKey))) (= (maxi ?b (maxEnd (drop $l k))) (maxEnd $l)))
  (behavior end
    (when (smallEnds (fld self list)))
    (ensures (= res (maxEnd (fld self list))))))


(prop C07 (references.pointerAdapter.ToContent enc) (references.pointerAdapter.ToPointer roundtrip)
  (references.contentKeyAdapter.ToContent enc) (references.contentKeyAdapter.ToContentKey roundtrip)
  (references.contentKeysAdapter.ToContent enc) (references.contentKeysAdapter.ToContentKeys roundtrip)
  (references.commitAdapter.ToContent enc) (references.commitAdapter.ToCommit roundtrip-plain roundtrip-mined roundtrip-child roundtrip-both)
  (references.commitsAdapter.ToContent enc) (references.commitsAdapter.ToCommits roundtrip)
  (references.adapter.ToContent enc) (references.adapter.ToReference roundtrip)
  (hashtrees.adapter.ToHashTree roundtrip)
  (references.commitBuilder.Now build) (references.contentContentKeysBuilder.Now build) (references.commitsBuilder.Now build)
  (lemmas encKeys-len encCommit-len encTree-len))
(prop C08 (contents.contentAdapter.ToInstance safe) (contents.adapter.ToInstance safe)
  (references.pointerAdapter.ToPointer safe) (references.contentKeyAdapter.ToContentKey safe) (references.contentKeysAdapter.ToContentKeys safe)
  (references.commitAdapter.ToCommit safe) (references.commitsAdapter.ToCommits safe) (references.adapter.ToReference safe)
  (hashtrees.leafAdapter.ContentToLeaf safe) (hashtrees.leafAdapter.ContentToParentLeaf safe) (hashtrees.leavesAdapter.ToLeaves safe)
  (hashtrees.adapter.ToHashTree safe) (hashtrees.compactAdapter.ToCompact safe) (hash.adapter.FromString text))
(prop C09 (references.commitBuilder.Now build))
(prop C10 (references.contentContentKeysBuilder.Now build) (references.contentKeys.Fetch lookup) (references.contentKeys.ListByKind filter)
  (references.contentKeys.Next end) (lemmas keyIndex-get))
(prop C11 (references.commitsBuilder.Now build) (references.commits.Fetch lookup) (references.commits.Latest last) (lemmas commitIndex-get))
