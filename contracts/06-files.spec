; ---- libs/databases/infrastructure/files: the ghost file system ----
(pkg files libs/databases/infrastructure/files)
(alias App files.application)
(alias Ctx files.context)
(sharedmap "map[uint]*libs/databases/infrastructure/files.context")
(ghost fs (Map Str Bytes))
(ghost gen (Map Str int))
(fun pathjoin (Str Str) Str)
(fun str_cat (Str Str) Str)

(define (pathOf app name) (pathjoin (fld app dirPath) name))
(define (srcOf app c) (pathOf app (fld c name)))
(define (dstOf app c) (pathOf app (tmpname (fld c name) (fld app dstExtension))))
(define (bckOf app c) (pathOf app (tmpname (fld c name) (fld app bckExtension))))
(define (tmpname n e) (strcat n (strcat "." e)))

; a database file: the length of the reference, the reference, the contents
(def dbfile ((kl (Seq ContentKey)) (cl (Seq Commit)) (data Bytes)) Bytes
  (++ (le64 (len (encReference kl cl))) (encReference kl cl) data))
(def dataOf ((l (Seq Content))) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (fld (nth l 0) data) (dataOf (drop l 1)))))

(lemma dataOf-split ((l (Seq Content)) (n Int)) (hyp (>= n 0) (<= n (len l)))
  (= (dataOf l) (++ (dataOf (take l n)) (dataOf (drop l n))))
  (trigger (dataOf (take l n))) (measure n) (terms (dataOf (take (drop l 1) (- n 1)))) (fuel 2))
(lemma dataOf-snoc ((l (Seq Content)) (a Int) (n Int)) (hyp (>= a 0) (>= n 1) (<= (+ a n) (len l)))
  (= (dataOf (extract l a n)) (++ (dataOf (extract l a (- n 1))) (fld (nth l (- (+ a n) 1)) data)))
  (trigger (dataOf (extract l a n))) (terms (dataOf (take (extract l a n) (- n 1))) (dataOf (drop (extract l a n) (- n 1))) (nth (drop (extract l a n) (- n 1)) 0) (drop (drop (extract l a n) (- n 1)) 1) (extract l a (- n 1))) (fuel 3))

(define (keysOf r) (fld (fld r contentKeys) list))
(define (commitsOf r) (fld (fld r commits) list))

(func files.application.referenceToContent
  (params reference) (results res err)
  (behavior enc (ensures (ok err)
    (= res (++ (le64 (len (encReference (keysOf reference) (commitsOf reference)))) (encReference (keysOf reference) (commitsOf reference)))))))

(func files.application.saveDataOnDisk
  (params offset data pConn) (results err)
  (modifies (content (fld pConn path)) (fld pConn pos))
  (requires (>= offset 0) (fs.valid pConn) (fld pConn wr))
  (behavior write
    (when (= offset (len (fs.content (fld pConn path)))))
    (ensures (fs.valid pConn) 
      (=> (ok err) (= (fs.content (fld pConn path)) (++ (old (fs.content (fld pConn path))) data))))))

(define (encOf r) (encReference (keysOf r) (commitsOf r)))
(func files.application.writeDataAndReferenceOnDestinationFile
  (params context updatedReference) (results res err)
  (inv ((?f (Opt Bytes)) (?r Int)) (= ?f (ptr (++ (val (entry ?f)) (extract (fs.content (srcOf self context)) (entry ?r) (- ?r (entry ?r)))))))
  (inv ((?r Int)) (and (<= (entry ?r) ?r) (<= ?r (len (fs.content (srcOf self context))))))
  (inv ((?f (Opt Bytes)) (?w Int)) (= ?w (len (val ?f))))
  (inv ((?f (Opt Bytes)) ($l (Seq Content))) (= ?f (ptr (++ (val (entry ?f)) (dataOf (take $l k))))))
  (modifies (content (dstOf self context)))
  (requires (> (fld self readChunkSize) 0) (not (= (dstOf self context) (srcOf self context)))
     (= (fld (fld context pConn) path) (srcOf self context))
     (fs.valid (fld context pConn))
     (<= (fld context dataOffset) (len (fs.content (srcOf self context)))))
  (behavior rewrite
    (only dataOf dataOf-snoc)
    (ensures (=> (ok err) (and (not (isnil res)) (= (deref res) (+ 8 (len (encOf updatedReference))))
      (fs.has (dstOf self context))
      (= (fs.content (dstOf self context))
        (++ (le64 (len (encOf updatedReference))) (encOf updatedReference)
            (if (isnil (fld context reference)) (empty Bytes) (drop (old (fs.content (srcOf self context))) (fld context dataOffset)))
            (dataOf (fld context contentList)))))))))

(define (newContent app c r) (++ (le64 (len (encOf r))) (encOf r)
  (if (isnil (fld c reference)) (empty Bytes) (drop (old (fs.content (srcOf app c))) (fld c dataOffset)))
  (dataOf (fld c contentList))))
(func files.application.updateDatabaseOnFile
  (params context updatedReference) (results conn offset err)
  (modifies (file (srcOf self context)) (file (dstOf self context)) (file (bckOf self context))
     (fld (fld context pConn) pos) (fld (fld context pConn) open))
  (requires (> (fld self readChunkSize) 0)
     (not (= (fld self dstExtension) (fld self bckExtension)))
     (= (fld (fld context pConn) path) (srcOf self context))
     (fs.valid (fld context pConn))
     (<= (fld context dataOffset) (len (fs.content (srcOf self context)))))
  (behavior swap
    (step (fs.has (srcOf self context))
      (or (= (fs.content (srcOf self context)) (old (fs.content (srcOf self context))))
          (= (fs.content (srcOf self context)) (newContent self context updatedReference))))
    (ensures (=> (ok err) (and (given conn) (not (isnil offset)) (= (deref offset) (+ 8 (len (encOf updatedReference))))
      (= (fld conn path) (srcOf self context)) (fs.valid conn)
      (= (fs.content (srcOf self context)) (newContent self context updatedReference))))
      (=> (not (ok err)) (or (fs.valid (fld context pConn)) (= (fs.content (srcOf self context)) (newContent self context updatedReference)))))))

; ---- the reference of the next commit ----
(define (ctxOf app id) (get (fld app contexts) id))
(def hashesOf ((l (Seq Content))) (Seq Bytes)
  (if (= (len l) 0) (empty (Seq Bytes)) (++ (unit (fld (nth l 0) hash)) (hashesOf (drop l 1)))))
(lemma maxEnd-pos ((l (Seq ContentKey))) (>= (maxEnd l) 0) (trigger (maxEnd l)) (measure (len l)))
(lemma hashesOf-len ((l (Seq Content))) (= (len (hashesOf l)) (len l)) (trigger (hashesOf l)) (measure (len l)))
(def mkKeys ((l (Seq Content)) (off Int) (ch Bytes)) (Seq ContentKey)
  (if (= (len l) 0) (empty (Seq ContentKey))
    (++ (unit (mk ContentKey (fld (nth l 0) hash) (fld (nth l 0) kind) (mk Pointer off (len (fld (nth l 0) data))) ch))
        (mkKeys (drop l 1) (+ off (len (fld (nth l 0) data))) ch))))
(define (oldKeys c) (if (isnil (fld c reference)) (empty (Seq ContentKey)) (keysOf (fld c reference))))
(define (oldCommits c) (if (isnil (fld c reference)) (empty (Seq Commit)) (commitsOf (fld c reference))))
; a tree built from digests is well formed
(def all64 ((hs (Seq Bytes))) Bool (or (= (len hs) 0) (and (= (len (nth hs 0)) 64) (all64 (drop hs 1)))))
(lemma all64-app ((c (Seq Bytes)) (a (Seq Bytes)) (b (Seq Bytes))) (hyp (= c (++ a b))) (= (all64 c) (and (all64 a) (all64 b)))
  (trigger (all64 (++ a b))) (trigger (all64 c) (++ a b)) (measure (len a)) (terms (all64 (++ (drop a 1) b)) (drop (++ a b) 1) (nth (++ a b) 0)) (fuel 2))
(lemma digs-64 ((b (Seq Bytes))) (all64 (digs b)) (trigger (all64 (digs b))) (measure (len b)))
(lemma reps-64 ((n Int)) (all64 (reps (digest (empty Bytes)) n)) (trigger (all64 (reps (digest (empty Bytes)) n))) (measure n) (terms (all64 (++ (reps (digest (empty Bytes)) (- n 1)) (unit (digest (empty Bytes)))))))
(lemma leafs-wf ((hs (Seq Bytes))) (hyp (all64 hs)) (wfLs (leafs hs)) (trigger (wfLs (leafs hs))) (measure (len hs)) (terms (wfLs (leafs (drop hs 1))) (all64 (drop hs 1)) (wfP (nildef ParentLeaf)) (wfL (nth (leafs hs) 0)) (drop (leafs hs) 1)) (fuel 3))
(lemma pairs-wf ((l (Seq Leaf))) (hyp (wfLs l)) (wfLs (pairs l)) (trigger (wfLs (pairs l))) (measure (len l)) (terms (wfLs (drop l 1)) (wfLs (drop l 2)) (wfLs (pairs (drop l 2))) (drop (pairs l) 1) (nth (pairs l) 0) (wfL (nth (pairs l) 0))) (fuel 3))
(lemma tree-wf ((l (Seq Leaf))) (hyp (wfLs l) (>= (len l) 2) (pow2 (len l))) (and (= (len (fld (treeOf l) head)) 64) (wfP (fld (treeOf l) parent))) (trigger (treeOf l)) (measure (len l)) (terms (wfLs (pairs l))) (fuel 3))
(lemma built-wf ((b (Seq Bytes))) (and (= (len (fld (treeOf (leafs (padded b))) head)) 64) (wfP (fld (treeOf (leafs (padded b))) parent)))
  (trigger (treeOf (leafs (padded b)))) (terms (wfLs (leafs (padded b))) (all64 (padded b)) (all64 (digs (pad2 b))) (all64 (reps (digest (empty Bytes)) (- (padlen (len (pad2 b))) (len (pad2 b)))))))
(define (miningOf app) (fld (fld (fld (fld (fld app referenceAdapter) commitsAdapter) adapter) builder) miningValue))
(lemma wfContents-snoc ((c (Seq Content)) (a (Seq Content)) (x Content)) (hyp (= c (++ a (unit x))) (wfContents a) (wfContent x)) (wfContents c)
  (trigger (wfContents c) (wfContents a) (++ a (unit x))) (measure (len a)) (terms (wfContents (++ (drop a 1) (unit x))) (drop (++ a (unit x)) 1) (nth (++ a (unit x)) 0)) (fuel 2))
(define (lastOf l) (nth l (- (len l) 1)))
(func files.application.updateReference
  (params context) (results res err)
  (wraps)
  (inv ((?b (Seq Bytes)) ($l (Seq Content))) (= (++ ?b (hashesOf (drop $l k))) (hashesOf $l)))
  (behavior next
  (only dataOf dataOf-split mkKeys maxEnd maxEnd-pos smallEnds)
  (inv ((?o int64) ($l (Seq Content))) (= ?o (+ (entry ?o) (len (dataOf (take $l k))))))
  (inv ((?kl (Seq ContentKey)) (?o int64) ($l (Seq Content)) ($c Bytes)) (= (++ ?kl (mkKeys (drop $l k) ?o $c)) (++ (entry ?kl) (mkKeys $l (entry ?o) $c))))
    (when (haskey (fld self contexts) context)
      (=> (given (fld (ctxOf self context) reference)) (and (smallEnds (keysOf (fld (ctxOf self context) reference)))
         (< (+ (maxEnd (keysOf (fld (ctxOf self context) reference))) (len (dataOf (fld (ctxOf self context) contentList)))) 9223372036854775808)))
      (< (len (dataOf (fld (ctxOf self context) contentList))) 9223372036854775808))
    (ensures (=> (ok err) (and (given res)
      (= (keysOf res) (++ (oldKeys (ctxOf self context))
         (mkKeys (fld (ctxOf self context) contentList) (maxEnd (oldKeys (ctxOf self context))) (fld (lastOf (commitsOf res)) hash))))
      (= (commitsOf res) (++ (oldCommits (ctxOf self context)) (unit (lastOf (commitsOf res)))))
      ))))
  (behavior chain
    (when (haskey (fld self contexts) context))
    (ensures (=> (ok err) (and (given res)
      (=> (<= (len (fld (ctxOf self context) contentList)) 1125899906842624)
        (= (fld (lastOf (commitsOf res)) values) (treeOf (leafs (padded (hashesOf (fld (ctxOf self context) contentList)))))))
      (if (isnil (fld (ctxOf self context) reference)) (isnil (fld (lastOf (commitsOf res)) pParent))
          (= (fld (lastOf (commitsOf res)) pParent) (ptr (fld (lastOf (oldCommits (ctxOf self context))) hash))))
      (isnil (fld (lastOf (commitsOf res)) mine))
      (= (len (fld (lastOf (commitsOf res)) hash)) 64)
      (=> (and (<= (len (fld (ctxOf self context) contentList)) 1125899906842624) (=> (given (fld (ctxOf self context) reference)) (= (len (fld (lastOf (commitsOf (fld (ctxOf self context) reference))) hash)) 64)))
        (wfCommit (lastOf (commitsOf res)) 0))
      ))))
  (behavior none
    (when (not (haskey (fld self contexts) context)))
    (ensures (not (ok err))))
  (behavior nothing
    (when (haskey (fld self contexts) context) (isnil (fld (ctxOf self context) reference)) (= (len (fld (ctxOf self context) contentList)) 0))
    (ensures (not (ok err)))))

; ---- reading, writing and closing ----
(func files.application.Read
  (params context pointer) (results res err)
  (modifies)
  (requires (=> (haskey (fld self contexts) context) (fs.valid (fld (ctxOf self context) pConn)))
     (u64 (fld pointer from)) (u64 (fld pointer length)))
  (behavior range
    (ensures
      (=> (not (haskey (fld self contexts) context)) (not (ok err)))
      (=> (ok err) (and
        (<= (+ (fld (ctxOf self context) dataOffset) (fld pointer from) (fld pointer length)) (len (fs.content (fld (fld (ctxOf self context) pConn) path))))
        (= res (extract (fs.content (fld (fld (ctxOf self context) pConn) path)) (+ (fld (ctxOf self context) dataOffset) (fld pointer from)) (fld pointer length))))))))
(func files.application.Write
  (params context hash data kind) (results err)
  (modifies (fld (ctxOf self context) contentList) (map (fld self contexts)))
  (requires (not (isnil (fld self contexts))))
  (behavior pend
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (>= (len data) 1)))
      (= (fld self contexts) (old (fld self contexts)))
      (=> (ok err) (= (fld (ctxOf self context) contentList) (++ (old (fld (ctxOf self context) contentList)) (unit (mk Content hash data kind)))))
      (=> (and (ok err) (= (len hash) 64) (wfContents (old (fld (ctxOf self context) contentList)))) (wfContents (fld (ctxOf self context) contentList))))))
(func files.application.Cancel
  (params context) (results err)
  (modifies (fld (ctxOf self context) contentList) (map (fld self contexts)))
  (requires (not (isnil (fld self contexts))))
  (behavior drop
    (ensures (= (ok err) (haskey (fld self contexts) context))
      (= (fld self contexts) (old (fld self contexts)))
      (=> (ok err) (= (len (fld (ctxOf self context) contentList)) 0)))))
(func files.application.Close
  (params context) (results err)
  (modifies (fld (fld (ctxOf self context) pConn) open) (map (fld self contexts)))
  (behavior remove
    (ensures (=> (ok err) (and (haskey (old (fld self contexts)) context) (= (fld self contexts) (mdel (old (fld self contexts)) context))))
      (=> (not (ok err)) (= (fld self contexts) (old (fld self contexts)))))))
(func files.application.contentKeys
  (params context) (results res err)
  (behavior view
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference))))
      (=> (ok err) (= res (fld (fld (ctxOf self context) reference) contentKeys))))))
(func files.application.Commits
  (params context) (results res err)
  (behavior view
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference))))
      (=> (ok err) (= res (fld (fld (ctxOf self context) reference) commits))))))

; ---- opening ----
(define (fileOf kl cl b) (dbfile kl cl (drop b (+ 8 (len (encReference kl cl))))))
(define (chunkOf app n) (if (> (fld app readChunkSize) n) n (fld app readChunkSize)))
(func files.application.retrieveReference
  (wraps)
  (params name) (results res offset err)
  (requires (> (fld self readChunkSize) 0))
  (inv ((?o int64) ($r int)) (=> (<= k (div $r (chunkOf self $r))) (= ?o (+ 8 (* (chunkOf self $r) k)))))
  (inv ((?o int64) ($r int)) (=> (> k (div $r (chunkOf self $r))) (= ?o (+ 8 $r))))
  (inv ((?o int64)) (>= ?o 8))
  (inv ((?o int64)) (<= ?o (len (fs.content (pathOf self name)))))
  (inv ((?b Bytes) (?o int64)) (= ?b (extract (fs.content (pathOf self name)) 8 (- ?o 8))))
  (behavior inside
    (ensures (=> (ok err) (fs.has (pathOf self name))) (=> (ok err) (if (given res)
        (and (<= 8 offset) (<= offset (len (fs.content (pathOf self name)))))
        (and (= offset 0) (= (len (fs.content (pathOf self name))) 0))))))
  (behavior load
    (only dbfile fileOf encReference)
    (fuel 1)
    (ghost (kl (Seq ContentKey)) (cl (Seq Commit)))
    (when (>= (len kl) 1) (>= (len cl) 1) (wfKeys kl) (wfCommits cl (fld (fld (fld (fld (fld self referenceAdapter) commitsAdapter) adapter) builder) miningValue))
       (= (fs.content (pathOf self name)) (fileOf kl cl (fs.content (pathOf self name)))))
    (trigger (encReference kl cl))
    (ensures (=> (ok err) (and (given res) (= (keysOf res) kl) (= (commitsOf res) cl) (= offset (+ 8 (len (encReference kl cl)))))))))


; ---- reading by hash and by kind ----
(define (kAt c h) (lastKey (oldKeys c) (len (oldKeys c)) (hexenc h)))
(func files.application.retrieveActiveContentKeyByHash
  (params context hash) (results res err)
  (behavior view
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference)) (>= (kAt (ctxOf self context) hash) 0)))
      (=> (ok err) (= res (nth (oldKeys (ctxOf self context)) (kAt (ctxOf self context) hash)))))))
(define (dataAt app c from n) (extract (fs.content (fld (fld c pConn) path)) (+ (fld c dataOffset) from) n))
(func files.application.ReadByHash
  (params context hash) (results res err)
  (modifies)
  (requires (=> (haskey (fld self contexts) context) (fs.valid (fld (ctxOf self context) pConn))))
  (behavior latest
    (when (smallEnds (oldKeys (ctxOf self context))))
    (ensures
      (=> (not (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference)) (>= (kAt (ctxOf self context) hash) 0))) (not (ok err)))
      (=> (ok err) (= res (dataAt self (ctxOf self context)
         (fld (fld (nth (oldKeys (ctxOf self context)) (kAt (ctxOf self context) hash)) content) from)
         (fld (fld (nth (oldKeys (ctxOf self context)) (kAt (ctxOf self context) hash)) content) length)))))))
(func files.application.ContentKeysByKind
  (params context kind) (results res err)
  (behavior kind
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference)) (>= (len (ofKind (oldKeys (ctxOf self context)) kind)) 1)))
      (=> (ok err) (and (given res) (= (fld res list) (ofKind (oldKeys (ctxOf self context)) kind)))))))
(define (cAt c h) (lastCommit (oldCommits c) (len (oldCommits c)) (hexenc h)))
(func files.application.CommitByHash
  (params context hash) (results res err)
  (behavior view
    (ensures (= (ok err) (and (haskey (fld self contexts) context) (given (fld (ctxOf self context) reference)) (>= (cAt (ctxOf self context) hash) 0)))
      (=> (ok err) (= res (nth (oldCommits (ctxOf self context)) (cAt (ctxOf self context) hash)))))))

; ---- creating and deleting ----
(func files.application.Exists
  (params name) (results res err)
  (modifies)
  (behavior there (ensures (ok err) (=> res (fs.has (pathOf self name))))))
(func files.application.New
  (params name) (results err)
  (modifies (file (pathOf self name)))
  (behavior create
    (ensures (=> (old (fs.has (pathOf self name))) (not (ok err)))
      (=> (old (fs.has (pathOf self name))) (= (fs.content (pathOf self name)) (old (fs.content (pathOf self name)))))
      (=> (ok err) (and (fs.has (pathOf self name)) (= (fs.content (pathOf self name)) (empty Bytes)))))))
(func files.application.Delete
  (params name) (results err)
  (modifies (file (pathOf self name)))
  (behavior delete
    (ensures (=> (ok err) (and (old (fs.has (pathOf self name))) (not (fs.has (pathOf self name)))))
      (=> (not (ok err)) (and (= (fs.has (pathOf self name)) (old (fs.has (pathOf self name)))) (= (fs.content (pathOf self name)) (old (fs.content (pathOf self name)))))))))

(def readsOf ((l (Seq Pointer)) (b Bytes) (off Int)) (Seq Bytes)
  (if (= (len l) 0) (empty (Seq Bytes)) (++ (unit (extract b (+ off (fld (nth l 0) from)) (fld (nth l 0) length))) (readsOf (drop l 1) b off))))
(define (ctxData app id) (fs.content (fld (fld (ctxOf app id) pConn) path)))
(func files.application.ReadAll
  (params context pointers) (results res err)
  (modifies)
  (requires (=> (haskey (fld self contexts) context) (fs.valid (fld (ctxOf self context) pConn))))
  (inv () (=> (>= k 1) (haskey (fld self contexts) context)))
  (inv ((?o (Seq Bytes)) ($l (Seq Pointer))) (= (++ ?o (readsOf (drop $l k) (ctxData self context) (fld (ctxOf self context) dataOffset))) (readsOf $l (ctxData self context) (fld (ctxOf self context) dataOffset))))
  (behavior ranges
    (ensures
      (=> (and (>= (len pointers) 1) (not (haskey (fld self contexts) context))) (not (ok err)))
      (=> (ok err) (= res (readsOf pointers (ctxData self context) (fld (ctxOf self context) dataOffset)))))))

; what holds of every open context between two operations
(define (ctxInv app c)
  (and (= (fld (fld c pConn) path) (srcOf app c)) (fs.valid (fld c pConn))
    (=> (isnil (fld c reference)) (and (= (fld c dataOffset) 0) (= (len (fs.content (srcOf app c))) 0)))
    (=> (given (fld c reference)) (and
      (= (fs.content (srcOf app c)) (fileOf (keysOf (fld c reference)) (commitsOf (fld c reference)) (fs.content (srcOf app c))))
      (= (fld c dataOffset) (+ 8 (len (encOf (fld c reference)))))
      (smallEnds (keysOf (fld c reference)))
      (= (len (fs.content (srcOf app c))) (+ (fld c dataOffset) (maxEnd (keysOf (fld c reference)))))))))
; ---- opening a context ----
(func files.application.Open
  (params name) (results res err)
  (modifies (map (fld self contexts)))
  (requires (> (fld self readChunkSize) 0) (not (isnil (fld self contexts))))
  (behavior fresh
    (ensures
      (=> (not (ok err)) (= (fld self contexts) (old (fld self contexts))))
      (=> (ok err) (and (given res)
        (not (haskey (old (fld self contexts)) (deref res)))
        (haskey (fld self contexts) (deref res))
        (= (fld self contexts) (put (old (fld self contexts)) (deref res) (get (fld self contexts) (deref res))))
        (= (fld (ctxOf self (deref res)) name) name)
        (= (fld (fld (ctxOf self (deref res)) pConn) path) (pathOf self name))
        (fs.valid (fld (ctxOf self (deref res)) pConn))
        (= (len (fld (ctxOf self (deref res)) contentList)) 0)
        (<= (fld (ctxOf self (deref res)) dataOffset) (len (fs.content (pathOf self name))))
        (=> (isnil (fld (ctxOf self (deref res)) reference)) (and (= (fld (ctxOf self (deref res)) dataOffset) 0) (= (len (fs.content (pathOf self name))) 0)))))))
  (behavior refuse
    (ghost (id uint))
    (when (haskey (fld self contexts) id) (= (fld (get (fld self contexts) id) name) name))
    (each id (not (= (fld (get (fld self contexts) id) name) name)))
    (ensures (not (ok err)) (= (fld self contexts) (old (fld self contexts)))))
  (behavior consistent
    (ghost (kl (Seq ContentKey)) (cl (Seq Commit)))
    (when (>= (len kl) 1) (>= (len cl) 1) (wfKeys kl) (wfCommits cl (fld (fld (fld (fld (fld self referenceAdapter) commitsAdapter) adapter) builder) miningValue))
       (smallEnds kl) (= (fs.content (pathOf self name)) (fileOf kl cl (fs.content (pathOf self name))))
       (= (len (fs.content (pathOf self name))) (+ 8 (len (encReference kl cl)) (maxEnd kl))))
    (trigger (encReference kl cl))
    (ensures (=> (ok err) (ctxInv self (ctxOf self (deref res))))))
  (behavior load
    (ghost (kl (Seq ContentKey)) (cl (Seq Commit)))
    (when (>= (len kl) 1) (>= (len cl) 1) (wfKeys kl) (wfCommits cl (fld (fld (fld (fld (fld self referenceAdapter) commitsAdapter) adapter) builder) miningValue))
       (= (fs.content (pathOf self name)) (fileOf kl cl (fs.content (pathOf self name)))))
    (trigger (encReference kl cl))
    (ensures (=> (ok err) (and (given res) (given (fld (ctxOf self (deref res)) reference)) (= (oldKeys (ctxOf self (deref res))) kl) (= (oldCommits (ctxOf self (deref res))) cl)
      (= (fld (ctxOf self (deref res)) dataOffset) (+ 8 (len (encReference kl cl)))))))))

; ---- committing ----
; mkKeys: the pointers follow one another from off
(lemma mkKeys-len ((l (Seq Content)) (off Int) (ch Bytes)) (= (len (mkKeys l off ch)) (len l)) (trigger (mkKeys l off ch)) (measure (len l)))
(lemma mkKeys-end ((l (Seq Content)) (off Int) (ch Bytes)) (hyp (>= off 0) (>= (len l) 1))
  (= (maxEnd (mkKeys l off ch)) (+ off (len (dataOf l)))) (trigger (mkKeys l off ch)) (measure (len l)) (fuel 2))
(lemma maxEnd-app ((a (Seq ContentKey)) (b (Seq ContentKey)))
  (= (maxEnd (++ a b)) (maxi (maxEnd a) (maxEnd b))) (trigger (maxEnd (++ a b))) (measure (len a)) (terms (maxEnd (++ (drop a 1) b)) (drop (++ a b) 1) (nth (++ a b) 0)) (fuel 2))
(lemma small-app ((a (Seq ContentKey)) (b (Seq ContentKey)))
  (= (smallEnds (++ a b)) (and (smallEnds a) (smallEnds b))) (trigger (smallEnds (++ a b))) (measure (len a)) (terms (smallEnds (++ (drop a 1) b)) (drop (++ a b) 1) (nth (++ a b) 0)) (fuel 2))
(lemma keys-app ((c (Seq ContentKey)) (a (Seq ContentKey)) (l (Seq Content)) (off Int) (ch Bytes)) (hyp (= c (++ a (mkKeys l off ch))))
  (= (maxEnd c) (maxi (maxEnd a) (maxEnd (mkKeys l off ch))))
  (trigger (maxEnd c) (maxEnd a) (mkKeys l off ch)) (terms (maxEnd (++ a (mkKeys l off ch)))))
(lemma keys-app-small ((c (Seq ContentKey)) (a (Seq ContentKey)) (l (Seq Content)) (off Int) (ch Bytes)) (hyp (= c (++ a (mkKeys l off ch))))
  (= (smallEnds c) (and (smallEnds a) (smallEnds (mkKeys l off ch))))
  (trigger (smallEnds c) (smallEnds a) (mkKeys l off ch)) (terms (smallEnds (++ a (mkKeys l off ch)))))
(lemma mkKeys-small ((l (Seq Content)) (off Int) (ch Bytes)) (hyp (>= off 0) (wfContents l) (< (+ off (len (dataOf l))) 9223372036854775808))
  (smallEnds (mkKeys l off ch)) (trigger (mkKeys l off ch)) (measure (len l)) (fuel 2))
; the n-th key made for a list of contents designates the n-th content
(lemma mkKeys-data ((l (Seq Content)) (off Int) (ch Bytes) (n Int)) (hyp (>= off 0) (>= n 0) (< n (len l)))
  (and (= (extract (dataOf l) (- (fld (fld (nth (mkKeys l off ch) n) content) from) off) (fld (fld (nth (mkKeys l off ch) n) content) length)) (fld (nth l n) data))
       (>= (fld (fld (nth (mkKeys l off ch) n) content) from) off) (= (fld (fld (nth (mkKeys l off ch) n) content) length) (len (fld (nth l n) data)))
       (<= (+ (fld (fld (nth (mkKeys l off ch) n) content) from) (fld (fld (nth (mkKeys l off ch) n) content) length)) (+ off (len (dataOf l))))
       (= (fld (nth (mkKeys l off ch) n) hash) (fld (nth l n) hash)) (= (fld (nth (mkKeys l off ch) n) kind) (fld (nth l n) kind)))
  (measure n) (trigger (nth (mkKeys l off ch) n)) (terms (nth (mkKeys (drop l 1) (+ off (len (fld (nth l 0) data))) ch) (- n 1)) (nth (drop l 1) (- n 1)) (extract (dataOf (drop l 1)) (- (- (fld (fld (nth (mkKeys l off ch) n) content) from) off) (len (fld (nth l 0) data))) (fld (fld (nth (mkKeys l off ch) n) content) length))) (fuel 2))
; well-formed keys and commits stay so
(lemma mkKeys-wf ((l (Seq Content)) (off Int) (ch Bytes)) (hyp (>= off 0) (wfContents l) (= (len ch) 64) (< (+ off (len (dataOf l))) 9223372036854775808))
  (wfKeys (mkKeys l off ch)) (trigger (mkKeys l off ch)) (measure (len l)) (terms (wfContents (drop l 1)) (dataOf (drop l 1)) (wfKeys (mkKeys (drop l 1) (+ off (len (fld (nth l 0) data))) ch)) (drop (mkKeys l off ch) 1) (nth (mkKeys l off ch) 0) (wfContent (nth l 0)) (wfKey (nth (mkKeys l off ch) 0)) (wfPtr (fld (nth (mkKeys l off ch) 0) content))) (fuel 2))
(lemma wfKeys-app ((c (Seq ContentKey)) (a (Seq ContentKey)) (b (Seq ContentKey))) (hyp (= c (++ a b))) (= (wfKeys c) (and (wfKeys a) (wfKeys b)))
  (trigger (wfKeys c) (wfKeys a) (wfKeys b)) (measure (len a)) (terms (wfKeys (++ (drop a 1) b)) (drop (++ a b) 1) (nth (++ a b) 0)) (fuel 2))
(lemma wfCommits-snoc ((c (Seq Commit)) (a (Seq Commit)) (x Commit) (mv Int)) (hyp (= c (++ a (unit x))) (wfCommits a mv) (wfCommit x mv)) (wfCommits c mv)
  (trigger (wfCommits c mv) (wfCommits a mv) (wfCommit x mv)) (measure (len a)) (terms (wfCommits (++ (drop a 1) (unit x)) mv) (drop (++ a (unit x)) 1) (nth (++ a (unit x)) 0)) (fuel 2))
(lemma wfCommits-last ((l (Seq Commit)) (mv Int)) (hyp (>= (len l) 1) (wfCommits l mv)) (= (len (fld (nth l (- (len l) 1)) hash)) 64)
  (trigger (wfCommits l mv)) (measure (len l)) (terms (nth (drop l 1) (- (len l) 2)) (wfCommits (drop l 1) mv)) (fuel 3))
(lemma wfCommit-plain ((x Commit) (m Int) (n Int)) (hyp (isnil (fld x mine)) (wfCommit x m)) (wfCommit x n) (trigger (wfCommit x m) (wfCommit x n)))
(lemma wfCommits-new ((c (Seq Commit)) (a (Seq Commit)) (x Commit) (mv Int)) (hyp (= c (++ a (unit x))) (wfCommits a mv) (isnil (fld x mine)) (wfCommit x 0)) (wfCommits c mv)
  (trigger (wfCommits c mv) (wfCommits a mv) (wfCommit x 0)) (terms (wfCommit x mv)))
(lemma wfCommits-one ((c (Seq Commit)) (x Commit) (mv Int)) (hyp (= c (unit x)) (isnil (fld x mine)) (wfCommit x 0)) (wfCommits c mv)
  (trigger (wfCommits c mv) (wfCommit x 0)) (terms (wfCommit x mv)) (fuel 2))
; committed: the file holds the old keys and commits extended by one commit of the pending contents l, and the old data followed by theirs
(fun committed ((Seq ContentKey) (Seq Commit) (Seq Content) Bytes Bytes) Bool)
(axiom committed-def ((kl (Seq ContentKey)) (cl (Seq Commit)) (l (Seq Content)) (d Bytes) (b Bytes) (r Reference))
  (hyp (= (keysOf r) (++ kl (mkKeys l (maxEnd kl) (fld (lastOf (commitsOf r)) hash))))
       (= (commitsOf r) (++ cl (unit (lastOf (commitsOf r)))))
       (= b (++ (le64 (len (encOf r))) (encOf r) d (dataOf l))))
  (committed kl cl l d b) (trigger (committed kl cl l d b) (encReference (keysOf r) (commitsOf r)))
  (why "definition of committed: some reference extends the old one by one commit of the pending contents"))
(define (ctxPath app id) (srcOf app (ctxOf app id)))
(define (pendOf app id) (fld (ctxOf app id) contentList))
(define (dataNow app c) (if (isnil (fld c reference)) (empty Bytes) (drop (fs.content (srcOf app c)) (fld c dataOffset))))
(func files.application.Commit
  (params context) (results err)
  (wraps)
  (modifies (file (srcOf self (ctxOf self context))) (file (dstOf self (ctxOf self context))) (file (bckOf self (ctxOf self context)))
     (fld (fld (ctxOf self context) pConn) pos) (fld (fld (ctxOf self context) pConn) open)
     (fld (ctxOf self context) reference) (fld (ctxOf self context) dataOffset) (fld (ctxOf self context) pConn) (fld (ctxOf self context) contentList))
  (requires (> (fld self readChunkSize) 0)
     (not (= (fld self dstExtension) (fld self bckExtension)))
     (=> (haskey (fld self contexts) context) (and
       (= (fld (fld (ctxOf self context) pConn) path) (srcOf self (ctxOf self context)))
       (fs.valid (fld (ctxOf self context) pConn))
       (<= (fld (ctxOf self context) dataOffset) (len (fs.content (srcOf self (ctxOf self context)))))
      )))
  (behavior keep
    (ensures
      (=> (not (haskey (fld self contexts) context)) (not (ok err)))
      (=> (and (haskey (fld self contexts) context) (isnil (old (fld (ctxOf self context) reference))) (= (len (old (pendOf self context))) 0)) (not (ok err)))
      (=> (not (ok err)) (and (= (pendOf self context) (old (pendOf self context)))
        (= (fld (ctxOf self context) reference) (old (fld (ctxOf self context) reference)))
        (= (fld (ctxOf self context) dataOffset) (old (fld (ctxOf self context) dataOffset)))))
      (=> (ok err) (= (len (pendOf self context)) 0))))
  (behavior commit
    (when (haskey (fld self contexts) context)
      (=> (given (fld (ctxOf self context) reference)) (and (smallEnds (keysOf (fld (ctxOf self context) reference)))
         (< (+ (maxEnd (keysOf (fld (ctxOf self context) reference))) (len (dataOf (fld (ctxOf self context) contentList)))) 9223372036854775808)))
      (< (len (dataOf (fld (ctxOf self context) contentList))) 9223372036854775808))
    (step (fs.has (ctxPath self context))
      (or (= (fs.content (ctxPath self context)) (old (fs.content (ctxPath self context))))
        (committed (old (oldKeys (ctxOf self context))) (old (oldCommits (ctxOf self context))) (old (pendOf self context)) (old (dataNow self (ctxOf self context))) (fs.content (ctxPath self context)))))
    (ensures (=> (ok err) (and (given (fld (ctxOf self context) reference))
      (= (keysOf (fld (ctxOf self context) reference)) (++ (old (oldKeys (ctxOf self context)))
         (mkKeys (old (pendOf self context)) (maxEnd (old (oldKeys (ctxOf self context)))) (fld (lastOf (commitsOf (fld (ctxOf self context) reference))) hash))))
      (= (commitsOf (fld (ctxOf self context) reference)) (++ (old (oldCommits (ctxOf self context))) (unit (lastOf (commitsOf (fld (ctxOf self context) reference))))))
      (= (fld (ctxOf self context) dataOffset) (+ 8 (len (encOf (fld (ctxOf self context) reference)))))
      (= (fld (fld (ctxOf self context) pConn) path) (srcOf self (ctxOf self context)))
      (fs.valid (fld (ctxOf self context) pConn))
      (= (fs.content (srcOf self (ctxOf self context)))
         (dbfile (keysOf (fld (ctxOf self context) reference)) (commitsOf (fld (ctxOf self context) reference))
           (++ (old (dataNow self (ctxOf self context))) (dataOf (old (pendOf self context))))))))
      (=> (not (ok err)) (or (fs.valid (fld (ctxOf self context) pConn))
        (committed (old (oldKeys (ctxOf self context))) (old (oldCommits (ctxOf self context))) (old (pendOf self context)) (old (dataNow self (ctxOf self context))) (fs.content (ctxPath self context))))) ))
  (behavior reopen
    (when (haskey (fld self contexts) context) (ctxInv self (ctxOf self context)) (wfContents (pendOf self context)) (>= (len (pendOf self context)) 1)
      (<= (len (pendOf self context)) 1125899906842624)
      (< (+ (len (fs.content (ctxPath self context))) (len (dataOf (pendOf self context)))) 9223372036854775808)
      (=> (given (fld (ctxOf self context) reference)) (and (wfKeys (keysOf (fld (ctxOf self context) reference))) (wfCommits (commitsOf (fld (ctxOf self context) reference)) (miningOf self)))))
    (ensures (=> (ok err) (and (wfKeys (keysOf (fld (ctxOf self context) reference))) (wfCommits (commitsOf (fld (ctxOf self context) reference)) (miningOf self))))))
  (behavior invariant
    (when (haskey (fld self contexts) context) (ctxInv self (ctxOf self context)) (wfContents (pendOf self context)) (>= (len (pendOf self context)) 1)
      (< (+ (len (fs.content (ctxPath self context))) (len (dataOf (pendOf self context)))) 9223372036854775808))
    (ensures (=> (ok err) (ctxInv self (ctxOf self context))))))
; what was committed is what is read, and what was there stays readable
(lemma read-back ((e Bytes) (d Bytes) (l (Seq Content)) (ch Bytes) (n Int)) (hyp (>= n 0) (< n (len l)))
  (= (extract (++ (le64 (len e)) e d (dataOf l)) (+ 8 (len e) (fld (fld (nth (mkKeys l (len d) ch) n) content) from)) (fld (fld (nth (mkKeys l (len d) ch) n) content) length)) (fld (nth l n) data))
  (trigger (++ (le64 (len e)) e d (dataOf l)) (nth (mkKeys l (len d) ch) n))
  (terms (extract (dataOf l) (- (fld (fld (nth (mkKeys l (len d) ch) n) content) from) (len d)) (fld (fld (nth (mkKeys l (len d) ch) n) content) length))))
(lemma read-old ((e Bytes) (d Bytes) (x Bytes) (from Int) (n Int)) (hyp (>= from 0) (>= n 0) (<= (+ from n) (len d)))
  (= (extract (++ (le64 (len e)) e d x) (+ 8 (len e) from) n) (extract d from n))
  (trigger (extract (++ (le64 (len e)) e d x) (+ 8 (len e) from) n)))

(def readsAt ((l (Seq Bytes)) (kl (Seq ContentKey)) (b Bytes) (off Int)) (Seq Bytes)
  (if (= (len l) 0) (empty (Seq Bytes))
    (++ (unit (extract b (+ off (fld (fld (nth kl (lastKey kl (len kl) (hexenc (nth l 0)))) content) from)) (fld (fld (nth kl (lastKey kl (len kl) (hexenc (nth l 0)))) content) length)))
        (readsAt (drop l 1) kl b off))))
(define (ctxReads app id l) (readsAt l (oldKeys (ctxOf app id)) (ctxData app id) (fld (ctxOf app id) dataOffset)))
(func files.application.ReadAllByHashes
  (params context hashes) (results res err)
  (modifies)
  (requires (=> (haskey (fld self contexts) context) (fs.valid (fld (ctxOf self context) pConn))))
  (inv () (=> (>= k 1) (haskey (fld self contexts) context)))
  (inv ((?o (Seq Bytes)) ($l (Seq Bytes))) (= (++ ?o (ctxReads self context (drop $l k))) (ctxReads self context $l)))
  (behavior latest
    (when (smallEnds (oldKeys (ctxOf self context))))
    (ensures
      (=> (and (>= (len hashes) 1) (not (haskey (fld self contexts) context))) (not (ok err)))
      (=> (ok err) (= res (ctxReads self context hashes))))))

(prop C12 (files.application.Commit commit invariant reopen) (files.application.Open load consistent) (files.application.Read range)
  (files.application.ReadByHash latest) (files.application.ReadAll ranges) (files.application.ReadAllByHashes latest)
  (files.application.ContentKeysByKind kind) (files.application.CommitByHash view) (files.application.Write pend)
  (lemmas read-back read-old mkKeys-data mkKeys-end))
(prop C13 (files.application.Write pend) (files.application.Cancel drop) (files.application.Commit keep commit) (files.application.Read range)
  (lemmas mkKeys-len))
(prop C14 (files.application.Open fresh refuse) (files.application.New create) (files.application.Delete delete) (files.application.Exists there)
  (files.application.Read range) (files.application.ReadByHash latest) (files.application.ReadAll ranges) (files.application.ReadAllByHashes latest)
  (files.application.ContentKeysByKind kind) (files.application.CommitByHash view) (files.application.Write pend) (files.application.Cancel drop)
  (files.application.Commit keep) (files.application.Close remove))
(prop C15 (files.application.Commit keep commit) (files.application.updateDatabaseOnFile swap) (files.application.Open fresh)
  (files.application.retrieveReference inside) (files.application.Read range))
