; ---- libs/asts/applications: the parser ----
(pkg asts libs/asts/applications)
(opaquemap map[string]*libs/asts/applications.stack)
(opaquemap map[int][]byte)
(opaquemap map[string]bool)

; ---- the bytes of a tree; exact: no everything with an escape was used to produce it ----
(define (succ t) (given (fld (fld t block) successful)))
(define (els t) (fld (fld (fld (fld t block) successful) elements) list))
(define (chanBytes x ch) (if (and ch (given x)) (trsBytes (fld x list) ch) (empty Bytes)))
(define (chanExact x) (or (isnil x) (trsExact (fld x list))))
(define (valBytes v ch) (++ (chanBytes (fld v prefix) ch) (unit (fld v content))))
(define (ctBytes c ch) (if (given (fld c value)) (valBytes (fld c value) ch) (treeBytes (fld c tree) ch)))
(define (ctExact c) (if (given (fld c value)) (chanExact (fld (fld c value) prefix)) (exact (fld c tree))))
(def treeBytes ((t Tree) (ch Bool)) Bytes
  (if (isnil t) (empty Bytes)
  (if (isnil (fld (fld t block) successful)) (empty Bytes)
    (++ (elsBytes (els t) ch) (chanBytes (fld t suffix) ch)))))
(def trsBytes ((l (Seq Tree)) (ch Bool)) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (treeBytes (nth l 0) ch) (trsBytes (drop l 1) ch))))
(def elsBytes ((l (Seq TrElement)) (ch Bool)) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (ctsBytes (fld (fld (nth l 0) contents) list) ch) (elsBytes (drop l 1) ch))))
(def ctsBytes ((l (Seq TrContent)) (ch Bool)) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (ctBytes (nth l 0) ch) (ctsBytes (drop l 1) ch))))
(lemma trsBytes-app ((a (Seq Tree)) (b (Seq Tree)) (ch Bool)) (= (trsBytes (++ a b) ch) (++ (trsBytes a ch) (trsBytes b ch)))
  (trigger (trsBytes (++ a b) ch)) (split) (measure (len a)) (terms (trsBytes (++ (drop a 1) b) ch)))
(lemma elsBytes-app ((a (Seq TrElement)) (b (Seq TrElement)) (ch Bool)) (= (elsBytes (++ a b) ch) (++ (elsBytes a ch) (elsBytes b ch)))
  (trigger (elsBytes (++ a b) ch)) (split) (measure (len a)) (terms (elsBytes (++ (drop a 1) b) ch)))
(lemma ctsBytes-app ((a (Seq TrContent)) (b (Seq TrContent)) (ch Bool)) (= (ctsBytes (++ a b) ch) (++ (ctsBytes a ch) (ctsBytes b ch)))
  (trigger (ctsBytes (++ a b) ch)) (split) (measure (len a)) (terms (ctsBytes (++ (drop a 1) b) ch)))
(define (gEvery c) (fld (fld c instance) everything))
(define (escaped c) (and (isnil (fld c value)) (isnil (fld c external)) (given (fld c instance)) (isnil (fld (fld c instance) token)) (given (gEvery c)) (given (fld (gEvery c) escape))))
(def exact ((t Tree)) Bool
  (or (isnil t) (isnil (fld (fld t block) successful)) (and (elsExact (els t)) (chanExact (fld t suffix)))))
(def trsExact ((l (Seq Tree))) Bool (or (= (len l) 0) (and (exact (nth l 0)) (trsExact (drop l 1)))))
(def elsExact ((l (Seq TrElement))) Bool (or (= (len l) 0) (and (elExact (nth l 0)) (elsExact (drop l 1)))))
(def elExact ((e TrElement)) Bool
  (and (not (and (given (fld e grammar)) (given (fld (fld e grammar) element)) (escaped (fld (fld (fld e grammar) element) content))))
       (ctsExact (fld (fld e contents) list))))
(def ctsExact ((l (Seq TrContent))) Bool (or (= (len l) 0) (and (ctExact (nth l 0)) (ctsExact (drop l 1)))))
(lemma trsExact-app ((a (Seq Tree)) (b (Seq Tree))) (= (trsExact (++ a b)) (and (trsExact a) (trsExact b))) (trigger (trsExact (++ a b))) (split) (measure (len a)) (terms (trsExact (++ (drop a 1) b))))
(lemma elsExact-app ((a (Seq TrElement)) (b (Seq TrElement))) (= (elsExact (++ a b)) (and (elsExact a) (elsExact b))) (trigger (elsExact (++ a b))) (split) (measure (len a)) (terms (elsExact (++ (drop a 1) b))))
(lemma ctsExact-app ((a (Seq TrContent)) (b (Seq TrContent))) (= (ctsExact (++ a b)) (and (ctsExact a) (ctsExact b))) (trigger (ctsExact (++ a b))) (split) (measure (len a)) (terms (ctsExact (++ (drop a 1) b))))

(func trees.tree.Bytes (params ch) (results res)
  (inv ((?o Bytes) ($l (Seq TrElement))) (= (++ ?o (elsBytes (drop $l k) ch)) (elsBytes $l ch)))
  (behavior bytes (ensures (= res (treeBytes self ch)))))
(func trees.trees.Bytes (params ch) (results res)
  (inv ((?o Bytes) ($l (Seq Tree))) (= (++ ?o (trsBytes (drop $l k) ch)) (trsBytes $l ch)))
  (behavior bytes (ensures (= res (trsBytes (fld self list) ch)))))
(func trees.element.Bytes (params ch) (results res)
  (inv ((?o Bytes) ($l (Seq TrContent))) (= (++ ?o (ctsBytes (drop $l k) ch)) (ctsBytes $l ch)))
  (behavior bytes (ensures (= res (ctsBytes (fld (fld self contents) list) ch)))))
(func trees.content.Bytes (params ch) (results res)
  (behavior bytes (ensures (= res (ctBytes self ch)))))

(alias Stack asts.stack)
(invariant Stack (s) (and (given (fld s token)) (given (fld s lines))))

; ---- composing a token ----
(define (sint n) (if (< n 9223372036854775808) n (- n 18446744073709551616)))
(def rep ((e ComposeElement) (n Int)) Bytes
  (if (<= n 0) (empty Bytes) (++ (rep e (- n 1)) (unit (fld (fld e value) number)))))
(def composeBytes ((l (Seq ComposeElement))) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (rep (nth l 0) (sint (fld (nth l 0) occurences))) (composeBytes (drop l 1)))))

; ---- a valid derivation ----
(define (okLine b) (fld b successful))
(def allVal ((l (Seq TrContent))) Bool (or (= (len l) 0) (and (given (fld (nth l 0) value)) (allVal (drop l 1)))))
(lemma allVal-app ((a (Seq TrContent)) (b (Seq TrContent))) (= (allVal (++ a b)) (and (allVal a) (allVal b))) (split) (trigger (allVal (++ a b))) (measure (len a)) (terms (allVal (++ (drop a 1) b))))
(def rawBytes ((l (Seq TrContent))) Bytes (if (= (len l) 0) (empty Bytes) (++ (unit (fld (fld (nth l 0) value) content)) (rawBytes (drop l 1)))))
(lemma rawBytes-app ((a (Seq TrContent)) (b (Seq TrContent))) (= (rawBytes (++ a b)) (++ (rawBytes a) (rawBytes b))) (split) (trigger (rawBytes (++ a b))) (measure (len a)) (terms (rawBytes (++ (drop a 1) b))))
(define (reversed t) (fld (okLine (fld t block)) isReverse))
; what a content is for the grammar of its element
(define (treeMatch t g) (and (given t) (succ t)
  (if (given (fld g external)) (and (= (fld (fld t grammar) name) (fld (fld g external) name)) (= (fld (fld t grammar) block) (fld (fld (fld (fld g external) grammar) root) block)))
  (if (given (fld g instance))
    (if (given (fld (fld g instance) token)) (and (= (fld t grammar) (fld (fld g instance) token)) (not (reversed t)))
      (and (= (fld t grammar) (fld (gEvery g) exception)) (reversed t)))
    (not (reversed t))))))
(def ctMatch ((c TrContent) (g ElementContent)) Bool
  (if (given (fld g value)) (and (given (fld c value)) (= (fld (fld c value) content) (fld (fld g value) number)))
    (and (isnil (fld c value)) (treeMatch (fld c tree) g))))
(def ctsMatch ((l (Seq TrContent)) (g ElementContent)) Bool (or (= (len l) 0) (and (ctMatch (nth l 0) g) (ctsMatch (drop l 1) g))))
(lemma ctsMatch-app ((a (Seq TrContent)) (b (Seq TrContent)) (g ElementContent)) (= (ctsMatch (++ a b) g) (and (ctsMatch a g) (ctsMatch b g))) (split) (trigger (ctsMatch (++ a b) g)) (measure (len a)) (terms (ctsMatch (++ (drop a 1) b) g)))
(define (elMatch e c) (and (= (fld e grammar) c)
  (if (given (fld c element)) (ctsMatch (fld (fld e contents) list) (fld (fld c element) content))
    (and (allVal (fld (fld e contents) list)) (= (rawBytes (fld (fld e contents) list)) (composeBytes (fld (fld c compose) list)))))))
; the elements follow the first k containers, in order; only containers without a minimum are left out
(def derives ((l (Seq TrElement)) (cs (Seq Container)) (k Int)) Bool
  (if (<= k 0) (= (len l) 0)
    (or (and (> (len l) 0) (elMatch (nth l (- (len l) 1)) (nth cs (- k 1))) (derives (take l (- (len l) 1)) cs (- k 1)))
        (and (given (fld (nth cs (- k 1)) element)) (<= (sint (fld (fld (fld (nth cs (- k 1)) element) cardinality) min)) 0) (derives l cs (- k 1))))))
(define (lineDerives ln) (=> (given (fld ln elements)) (derives (fld (fld ln elements) list) (fld (fld ln grammar) containers) (len (fld (fld ln grammar) containers)))))
(define (chanValid x) (or (isnil x) (trsValid (fld x list))))
(define (valValid v) (chanValid (fld v prefix)))
(def lnValid ((ln TrLine) (b Block)) Bool
  (and (or (fld ln isReverse) (and (< (fld ln index) (len (fld b lines))) (= (fld ln grammar) (nth (fld b lines) (fld ln index))) (lineDerives ln)))
       (=> (given (fld ln elements)) (elsValid (fld (fld ln elements) list)))))
(def valid ((t Tree)) Bool
  (or (isnil t) (isnil (okLine (fld t block)))
    (and (lnValid (okLine (fld t block)) (fld (fld t grammar) block)) (chanValid (fld t suffix)))))
(def trsValid ((l (Seq Tree))) Bool (or (= (len l) 0) (and (valid (nth l 0)) (trsValid (drop l 1)))))
(def elsValid ((l (Seq TrElement))) Bool (or (= (len l) 0) (and (ctsValid (fld (fld (nth l 0) contents) list)) (elsValid (drop l 1)))))
(def ctValid ((c TrContent)) Bool (if (given (fld c value)) (valValid (fld c value)) (valid (fld c tree))))
(def ctsValid ((l (Seq TrContent))) Bool (or (= (len l) 0) (and (ctValid (nth l 0)) (ctsValid (drop l 1)))))
(lemma trsValid-app ((a (Seq Tree)) (b (Seq Tree))) (= (trsValid (++ a b)) (and (trsValid a) (trsValid b))) (split) (trigger (trsValid (++ a b))) (measure (len a)) (terms (trsValid (++ (drop a 1) b))))
(lemma elsValid-app ((a (Seq TrElement)) (b (Seq TrElement))) (= (elsValid (++ a b)) (and (elsValid a) (elsValid b))) (split) (trigger (elsValid (++ a b))) (measure (len a)) (terms (elsValid (++ (drop a 1) b))))
(lemma ctsValid-app ((a (Seq TrContent)) (b (Seq TrContent))) (= (ctsValid (++ a b)) (and (ctsValid a) (ctsValid b))) (split) (trigger (ctsValid (++ a b))) (measure (len a)) (terms (ctsValid (++ (drop a 1) b))))

; ---- the parser: nothing is lost, nothing is invented ----
(define (suf r d) (and (<= (len r) (len d)) (= r (drop d (- (len d) (len r))))))
(define (rem t) (fld t remaining))
(define (lossy isReverse escape) (and isReverse (given escape)))
(define (parsed t data lossy?) (and (suf (rem t) data)
  (=> (and (succ t) (exact t) (not lossy?)) (= (++ (treeBytes t true) (rem t)) data))))
(func asts.application.elementValue (params tokenName value stackMap escape channels isReverse prevData currentData) (results val rm st err)
  (nullable escape channels) (requires (given stackMap))
  (behavior conserve (ensures (=> (and (ok err) (given val)) (and (given st) (= (fld val content) (fld value number)) (suf rm currentData) (< (len rm) (len currentData))
     (=> (chanExact (fld val prefix)) (= (++ (valBytes val true) rm) currentData))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.channels derive))(ensures (=> (and (ok err) (given val)) (and (given st) (= (fld val content) (fld value number)) (valValid val))))))
(func asts.application.channels (params channels prevData currentData) (results chans rm err)
  (behavior conserve
    (inv ((?r Bytes)) (suf ?r currentData))
    (inv ((?t (Seq Tree)) (?r Bytes)) (=> (trsExact ?t) (= (++ (trsBytes ?t true) ?r) currentData)))
    (ensures (=> (ok err) (and (given chans) (suf rm currentData)
     (=> (trsExact (fld chans list)) (= (++ (trsBytes (fld chans list) true) rm) currentData))))))
  (behavior derive (optional) (nosafety)
    (inv ((?t (Seq Tree))) (trsValid ?t))
    (uses (asts.application.channel derive))(ensures (=> (ok err) (and (given chans) (trsValid (fld chans list)))))))
(func asts.application.channel (params channel prevData currentData) (results tree err)
  (behavior conserve (ensures (=> (and (ok err) (given tree)) (and (parsed tree currentData false) (=> (not (succ tree)) (= (rem tree) currentData))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.token derive) (asts.application.channelCondition derive))(ensures (=> (and (ok err) (given tree)) (valid tree)))))
(func asts.application.channelCondition (params condition prevData nextData) (results accepted err)
  (behavior safe (ensures true)))
(func asts.application.token (params token stackMap escape channels isReverse prevData currentData) (results tree st err)
  (nullable escape channels) (requires (given stackMap))
  (behavior conserve (ensures (=> (ok err) (and (given tree) (given st) (= (fld tree grammar) token)
     (parsed tree currentData (lossy isReverse escape)) (=> (and (not (succ tree)) (isnil channels)) (= (rem tree) currentData))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.block derive) (asts.application.channels derive))(ensures (=> (ok err) (and (given tree) (given st) (= (fld tree grammar) token) (valid tree) (=> (succ tree) (= (reversed tree) isReverse)))))))
(func asts.application.exception (params tokenName stackMap lines escape channels prevData currentData) (results ln rm err)
  (nullable escape channels) (requires (given stackMap))
  (behavior conserve (ensures (=> (ok err) (and (given ln) (suf rm currentData) (not (fld ln isReverse))
    (=> (and (given (fld ln elements)) (elsExact (fld (fld ln elements) list))) (= (++ (elsBytes (fld (fld ln elements) list) true) rm) currentData))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.line derive))(ensures (=> (ok err) (and (given ln))))))
(func asts.application.block (params token stackMap block escape channels isReverse prevData currentData) (results blk rm st err)
  (shapes 1)
  (nullable escape channels) (requires (given stackMap))
  (inv ((?l (Seq TrLine))) (isnil (firstOk ?l)))
  (behavior conserve
    (inv ((?r Bytes)) (suf ?r currentData))
    (inv ((?c (Seq TrContent)) (?r Bytes)) (=> (isnil escape) (= (++ (ctsBytes ?c true) ?r) currentData)))
    (ensures (=> (ok err) (and (given st) (suf rm currentData)
     (=> (or (isnil blk) (isnil (fld blk successful))) (= rm currentData))
     (=> (and (given blk) (given (fld blk successful)) (elsExact (fld (fld (fld blk successful) elements) list)) (not (lossy isReverse escape)))
         (= (++ (elsBytes (fld (fld (fld blk successful) elements) list) true) rm) currentData))))))
  (behavior derive (optional) (nosafety)
    (inv ((?c (Seq TrContent))) (ctsValid ?c))
    (uses (asts.application.token derive) (asts.application.line derive) (asts.application.exception derive))(ensures (=> (ok err) (and (given st) (=> (and (given blk) (given (okLine blk))) (and (= (fld (okLine blk) isReverse) isReverse) (lnValid (okLine blk) block))))))))
(func asts.application.grammar (params grammar isReverse prevData currentData) (results tree err)
  (behavior conserve (ensures (=> (ok err) (and (given tree) (= (fld tree grammar) (fld grammar root)) (parsed tree currentData false)))))
  (behavior derive (optional) (nosafety) (uses (asts.application.token derive))(ensures (=> (ok err) (and (given tree) (= (fld tree grammar) (fld grammar root)) (valid tree) (=> (succ tree) (= (reversed tree) isReverse)))))))
(func asts.application.Execute (params grammar values) (results tree err)
  (behavior conserve (ensures (=> (ok err) (and (given tree) (= (fld tree grammar) (fld grammar root)) (parsed tree values false)))))
  (behavior derive (optional) (nosafety) (uses (asts.application.grammar derive))(ensures (=> (ok err) (and (given tree) (= (fld tree grammar) (fld grammar root)) (valid tree) (=> (succ tree) (not (reversed tree))))))))
(func asts.application.external (params external isReverse prevData currentData) (results tree err)
  (behavior conserve (ensures (=> (and (ok err) (given tree)) (parsed tree currentData false))))
  (behavior derive (optional) (nosafety) (uses (asts.application.grammar derive))(ensures (=> (and (ok err) (given tree)) (and (valid tree) (= (fld (fld tree grammar) name) (fld external name)) (= (fld (fld tree grammar) block) (fld (fld (fld external grammar) root) block)) (=> (succ tree) (= (reversed tree) isReverse)))))))
(func asts.application.everything (params everything stackMap isReverse prevData currentData) (results tree st err)
  (requires (given stackMap))
  (behavior conserve (ensures (=> (ok err) (and (given tree) (given st) (parsed tree currentData (lossy (not isReverse) (fld everything escape)))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.token derive))(ensures (=> (ok err) (and (given tree) (given st) (= (fld tree grammar) (fld everything exception)) (valid tree) (=> (succ tree) (= (reversed tree) (not isReverse))))))))
(func asts.application.instance (params instance stackMap escape channels isReverse prevData currentData) (results tree st err)
  (nullable escape channels) (requires (given stackMap) (not isReverse))
  (behavior conserve (ensures (=> (ok err) (and (given tree) (given st)
    (parsed tree currentData (and (isnil (fld instance token)) (given (fld (fld instance everything) escape))))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.token derive) (asts.application.everything derive))(ensures (=> (ok err) (and (given tree) (given st) (valid tree) (=> (succ tree) (if (given (fld instance token)) (and (= (fld tree grammar) (fld instance token)) (not (reversed tree))) (and (= (fld tree grammar) (fld (fld instance everything) exception)) (reversed tree)))))))))
(func asts.application.elementContent (params tokenName content stackMap escape channels isReverse prevData currentData) (results val tree rm st err)
  (nullable escape channels) (requires (given stackMap) (not isReverse))
  (behavior conserve (ensures (=> (ok err) (and
    (or (isnil val) (isnil tree)) (=> (given (fld content value)) (isnil tree))
    (=> (given val) (and (given st) (suf rm currentData) (< (len rm) (len currentData)) (given (fld content value)) (= (fld val content) (fld (fld content value) number))
       (=> (chanExact (fld val prefix)) (= (++ (valBytes val true) rm) currentData))))
    (=> (given tree) (and (given st) (= rm (rem tree)) (parsed tree currentData (escaped content))))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.external derive) (asts.application.instance derive) (asts.application.token derive) (asts.application.elementValue derive))(ensures (=> (ok err) (and (or (isnil val) (isnil tree))
     (=> (given (fld content value)) (isnil tree))
     (=> (given val) (and (given st) (valValid val) (given (fld content value)) (= (fld val content) (fld (fld content value) number))))
     (=> (given tree) (and (given st) (valid tree) (=> (succ tree) (treeMatch tree content)))))))))
(func asts.application.element (params tokenName element stackMap escape channels isReverse prevData currentData) (results ct rm st err)
  (nullable escape channels) (requires (given stackMap) (not isReverse))
  (behavior conserve (ensures (=> (ok err) (and (given ct) (given st) (suf rm currentData)
    (=> (and (ctExact ct) (not (escaped (fld element content)))) (= (++ (ctBytes ct true) rm) currentData))))))
  (behavior derive (optional) (nosafety) (uses (asts.application.elementContent derive))(ensures (=> (ok err) (and (given ct) (given st) (ctValid ct) (ctMatch ct (fld element content)))))))
(define (bound e) (and (>= (amount e) (fld (fld (fld (fld e grammar) element) cardinality) min))
   (or (isnil (fld (fld (fld (fld e grammar) element) cardinality) pMax))
             (<= (amount e) (deref (fld (fld (fld (fld e grammar) element) cardinality) pMax))))))
(func asts.application.line (params tokenName stackMap line index escape channels isReverse prevData currentData) (results ln rm st err)
  (shapes 1)
  (nullable escape channels) (requires (given stackMap) (not isReverse))
  (behavior conserve
    (inv ((?r Bytes)) (suf ?r currentData))
    (inv ((?e (Seq TrElement)) (?r Bytes)) (=> (elsExact ?e) (= (++ (elsBytes ?e true) ?r) currentData)))
    (inv (($e (Seq TrElement)) (?c (Seq TrContent)) (?r Bytes)) (=> (and (elsExact $e) (ctsExact ?c)) (= (++ (elsBytes $e true) (ctsBytes ?c true) ?r) currentData)))
    (inv (($g GrElement) ($e (Seq TrElement)) (?c (Seq TrContent)) (?r Bytes)) (=> (and (elsExact $e) (ctsExact ?c) (or (= (len ?c) 0) (not (escaped (fld $g content))))) (= (++ (elsBytes $e true) (ctsBytes ?c true) ?r) currentData)))
    (ensures (=> (ok err) (and (given ln) (given st) (suf rm currentData) (= (fld ln index) index) (= (fld ln grammar) line) (not (fld ln isReverse))
    (=> (and (given (fld ln elements)) (elsExact (fld (fld ln elements) list))) (= (++ (elsBytes (fld (fld ln elements) list) true) rm) currentData))))))
  (behavior derive (optional) (nosafety)
    (inv ((?e (Seq TrElement))) (elsValid ?e))
    (inv ((?e (Seq TrElement)) ($c (Seq Container))) (derives ?e $c k))
    (inv ((?c (Seq TrContent))) (ctsValid ?c))
    (inv (($g GrElement) (?c (Seq TrContent))) (ctsMatch ?c (fld $g content)))
    (inv ((?c (Seq TrContent))) (allVal ?c))
    (inv ((?c (Seq TrContent)) ($l (Seq ComposeElement))) (= (++ (rawBytes ?c) (composeBytes (drop $l k))) (composeBytes $l)))
    (inv ((?c (Seq TrContent)) ($b (Seq TrContent)) ($e ComposeElement)) (= (rawBytes ?c) (++ (rawBytes $b) (rep $e k))))
    (uses (asts.application.elementValue derive) (asts.application.element derive))(ensures (=> (ok err) (and (given ln) (given st) (= (fld ln index) index) (= (fld ln grammar) line) (not (fld ln isReverse)) (lineDerives ln) (=> (given (fld ln elements)) (elsValid (fld (fld ln elements) list))))))))
(def containersBytes ((l (Seq Container))) Bytes
  (if (= (len l) 0) (empty Bytes) (++ (composeBytes (fld (fld (nth l 0) compose) list)) (containersBytes (drop l 1)))))
(def allCompose ((l (Seq Container))) Bool
  (or (= (len l) 0) (and (given (fld (nth l 0) compose)) (allCompose (drop l 1)))))
(func asts.application.composeCompose (params compose) (results res err)
  (inv ((?o Bytes) ($l (Seq ComposeElement))) (= (++ ?o (composeBytes (drop $l k))) (composeBytes $l)))
  (inv ((?o Bytes) ($b Bytes) ($e ComposeElement)) (= ?o (++ $b (rep $e k))))
  (behavior bytes (ensures (ok err) (= res (composeBytes (fld compose list))))))
(func asts.application.Compose (params token) (results res err)
  (inv ((?o Bytes) ($l (Seq Container))) (= (++ ?o (containersBytes (drop $l k))) (containersBytes $l)))
  (inv (($l (Seq Container))) (= (allCompose (drop $l k)) (allCompose $l)))
  (behavior bytes (ensures
    (= (ok err) (and (= (len (fld (fld token block) lines)) 1) (allCompose (fld (nth (fld (fld token block) lines) 0) containers))))
    (=> (ok err) (= res (containersBytes (fld (nth (fld (fld token block) lines) 0) containers)))))))
(prop C17 (asts.application.Compose bytes))
(prop C19 (asts.application.Execute derive))
(prop C18 (asts.application.Execute conserve) (trees.tree.Bytes bytes) (trees.trees.Bytes bytes) (trees.element.Bytes bytes) (trees.content.Bytes bytes))
