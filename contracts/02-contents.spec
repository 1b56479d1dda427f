; ---- libs/databases/domain/contents ----
(pkg contents libs/databases/domain/contents)
(alias Content contents.Content)
(alias Contents contents.Contents)

(def wfContent ((c Content)) Bool (and (u64 (fld c kind)) (= (len (fld c hash)) 64) (>= (len (fld c data)) 1)))
(def encContent ((c Content)) Bytes (++ (fld c hash) (le64 (fld c kind)) (fld c data)))
(def encContents ((l (Seq Content))) Bytes
  (if (= (len l) 0) (empty Bytes)
    (++ (le64 (len (encContent (nth l 0)))) (encContent (nth l 0)) (encContents (drop l 1)))))
(def wfContents ((l (Seq Content))) Bool
  (or (= (len l) 0) (and (wfContent (nth l 0)) (wfContents (drop l 1)))))

(func contents.contentAdapter.ToContent
  (params ins) (results res err)
  (behavior enc (ensures (ok err) (= res (encContent ins)))))
(func contents.contentAdapter.ToInstance
  (params content) (results res err)
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (c Content))
    (when (not (isnil c)) (wfContent c) (= content (encContent c)))
    (trigger (encContent c))
    (ensures (ok err) (= res c))))
(func contents.adapter.ToContent
  (params ins) (results res err)
  (inv ((?o Bytes) ($l (Seq Content))) (= (++ ?o (encContents (drop $l k))) (++ (entry ?o) (encContents $l))))
  (behavior enc (ensures (ok err) (= res (encContents (fld ins list))))))
(func contents.adapter.ToInstance
  (params content) (results res err)
  (inv ((?r Bytes)) (= ?r (encContents (drop gl k))))
  (inv () (wfContents (drop gl k)))
  (inv ((?l (Seq Content))) (= ?l (take gl k)))
  (behavior safe (ensures (=> (ok err) (not (isnil res)))))
  (behavior roundtrip
    (ghost (gl (Seq Content)))
    (when (>= (len gl) 1) (wfContents gl) (= content (encContents gl)))
    (trigger (encContents gl))
    (ensures (ok err) (not (isnil res)) (= (fld res list) gl))))
(prop C06 (contents.contentAdapter.ToContent enc) (contents.contentAdapter.ToInstance roundtrip)
  (contents.adapter.ToContent enc) (contents.adapter.ToInstance roundtrip))
