; ---- libs/asts/domain: grammars and trees ----
(pkg values libs/asts/domain/grammars/values)
(pkg cardinalities libs/asts/domain/grammars/cardinalities)
(pkg grammars libs/asts/domain/grammars)
(pkg coverages libs/asts/domain/grammars/coverages)
(pkg trees libs/asts/domain/trees)
(alias GrValue values.Value)
(alias Cardinality cardinalities.Cardinality)
(alias Grammar grammars.Grammar)
(alias Token grammars.Token)
(alias Block grammars.Block)
(alias Line grammars.Line)
(alias Container grammars.Container)
(alias GrElement grammars.Element)
(alias ElementContent grammars.ElementContent)
(alias Instance grammars.Instance)
(alias Everything grammars.Everything)
(alias External grammars.External)
(alias Compose grammars.Compose)
(alias ComposeElement grammars.ComposeElement)
(alias Suite grammars.Suite)
(alias Channel grammars.Channel)
(alias Channels grammars.Channels)
(alias ChannelCondition grammars.ChannelCondition)
(alias Tree trees.Tree)
(alias Trees trees.Trees)
(alias TrBlock trees.Block)
(alias TrLine trees.Line)
(alias TrElement trees.Element)
(alias TrElements trees.Elements)
(alias TrContents trees.Contents)
(alias TrContent trees.Content)
(alias TrValue trees.Value)
(alias Coverages coverages.Coverages)
(alias Coverage coverages.Coverage)
(alias Execution coverages.Execution)
(alias Executions coverages.Executions)
(alias Result coverages.Result)

(define (given x) (not (isnil x)))
(invariant Grammar (g) (given (fld g root)))
(invariant Token (t) (not (= (fld t name) "")) (given (fld t block)))
(invariant Block (b) (>= (len (fld b lines)) 1))
(invariant Line (l) (>= (len (fld l containers)) 1))
(invariant Container (c) (= (isnil (fld c element)) (given (fld c compose))))
(invariant GrElement (e) (given (fld e content)) (given (fld e cardinality)))
(invariant ElementContent (c)
  (or (given (fld c value)) (given (fld c external)) (given (fld c instance)) (not (= (fld c recursive) "")))
  (=> (given (fld c value)) (and (isnil (fld c external)) (isnil (fld c instance)) (= (fld c recursive) "")))
  (=> (given (fld c external)) (and (isnil (fld c instance)) (= (fld c recursive) "")))
  (=> (given (fld c instance)) (= (fld c recursive) "")))
(invariant Instance (i) (= (isnil (fld i token)) (given (fld i everything))))
(invariant Everything (e) (given (fld e exception)))
(invariant External (e) (given (fld e grammar)))
(invariant Compose (c) (>= (len (fld c list)) 1))
(invariant ComposeElement (e) (given (fld e value)) (>= (fld e occurences) 1))
(invariant Suite (s) (given (fld s content)))
(invariant Channel (c) (given (fld c token)))
(invariant Tree (t) (given (fld t grammar)) (given (fld t block)))
(invariant TrBlock (b) (>= (len (fld b lines)) 1))
(invariant TrLine (l) (given (fld l grammar)))
(invariant TrElement (e) (given (fld e contents)))
(invariant TrContents (c) (>= (len (fld c list)) 1))
(invariant TrContent (c) (= (isnil (fld c value)) (given (fld c tree))))
(invariant Coverage (c) (given (fld c token)) (given (fld c executions)))
(invariant Execution (e) (given (fld e expectation)) (given (fld e result)))
(invariant Result (r) (=> (given (fld r tree)) (= (fld r err) "")))

(func grammars.elementBuilder.Now (results res err) (inline)
  (behavior build (ensures
    (= (ok err) (and (given (fld self cardinality))
      (or (given (fld self value)) (given (fld self external)) (given (fld self instance)) (not (= (fld self recursive) "")))))
    (=> (ok err) (and (given res) (= (fld res cardinality) (fld self cardinality))
      (= (fld (fld res content) value) (fld self value))
      (=> (isnil (fld self value)) (= (fld (fld res content) external) (fld self external)))
      (=> (and (isnil (fld self value)) (isnil (fld self external))) (= (fld (fld res content) instance) (fld self instance)))
      (=> (and (isnil (fld self value)) (isnil (fld self external)) (isnil (fld self instance)))
          (= (fld (fld res content) recursive) (fld self recursive))))))))
(func grammars.suiteBuilder.Now (results res err) (inline)
  (behavior build (ensures
    (= (ok err) (or (given (fld self valid)) (given (fld self invalid))))
    (=> (ok err) (and (given res) (= (fld res isValid) (given (fld self valid)))
      (= (fld res content) (if (given (fld self valid)) (fld self valid) (fld self invalid))))))))
(func coverages.resultBuilder.Now (results res err) (inline)
  (behavior build (ensures
    (= (ok err) (or (given (fld self tree)) (not (= (fld self error) ""))))
    (=> (ok err) (and (given res) (= (fld res tree) (fld self tree))
      (= (fld res err) (if (given (fld self tree)) "" (fld self error))))))))

; ---- names ----
(define (nameOfEveryOrToken i) (if (given (fld i token)) (fld (fld i token) name) (fld (fld i everything) name)))
(def elName ((e GrElement)) Str
  (if (given (fld (fld e content) value)) (fld (fld (fld e content) value) name)
  (if (given (fld (fld e content) external)) (fld (fld (fld e content) external) name)
  (if (given (fld (fld e content) instance)) (nameOfEveryOrToken (fld (fld e content) instance))
    (fld (fld e content) recursive)))))
(def ctName ((c Container)) Str (if (given (fld c element)) (elName (fld c element)) (fld (fld c compose) name)))
(func grammars.instance.Name (results res) (behavior name (ensures (= res (nameOfEveryOrToken self)))))
(func grammars.element.Name (results res) (behavior name (ensures (= res (elName self)))))
(func grammars.container.Name (results res) (behavior name (ensures (= res (ctName self)))))

; ---- success of elements and lines ----
(define (amount e) (len (fld (fld e contents) list)))
(define (hasName e s) (and (given (fld e grammar)) (= (ctName (fld e grammar)) s)))
(def sumOcc ((l (Seq ComposeElement)) (n Int)) Int
  (if (<= n 0) 0 (mod (+ (sumOcc l (- n 1)) (fld (nth l (- n 1)) occurences)) 18446744073709551616)))
(def elemIndex ((l (Seq TrElement)) (n Int)) (Map Str TrElement)
  (if (<= n 0) (emptymap Str TrElement)
    (if (isnil (fld (nth l (- n 1)) grammar)) (elemIndex l (- n 1))
      (put (elemIndex l (- n 1)) (ctName (fld (nth l (- n 1)) grammar)) (nth l (- n 1))))))
(def lastEl ((l (Seq TrElement)) (n Int) (s Str)) Int
  (if (<= n 0) -1 (if (hasName (nth l (- n 1)) s) (- n 1) (lastEl l (- n 1) s))))
(lemma elemIndex-get ((l (Seq TrElement)) (n Int) (s Str)) (hyp (<= n (len l)))
  (and (< (lastEl l n s) (if (< n 0) 0 n)) (<= -1 (lastEl l n s)) (= (haskey (elemIndex l n) s) (>= (lastEl l n s) 0)) (=> (>= (lastEl l n s) 0) (= (get (elemIndex l n) s) (nth l (lastEl l n s)))))
  (trigger (lastEl l n s)) (measure n))
(invariant TrElements (e) (>= (len (fld e list)) 1) (= (fld e mp) (elemIndex (fld e list) (len (fld e list)))))
(func trees.elementsBuilder.Now (results res err) (modifies (fld self list))
  (inv ((?m (Map Str TrElement)) ($l (Seq TrElement))) (= ?m (elemIndex $l k)))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
    (=> (ok err) (and (given res) (= (fld res list) (old (fld self list))))))))
(func trees.elements.Fetch (params name) (results res err)
  (behavior lookup (ensures
    (= (ok err) (>= (lastEl (fld self list) (len (fld self list)) name) 0))
    (=> (ok err) (= res (nth (fld self list) (lastEl (fld self list) (len (fld self list)) name)))))))
(def elOk ((e TrElement)) Bool
  (if (isnil (fld e grammar)) true
  (if (given (fld (fld e grammar) element))
    (and (>= (amount e) (fld (fld (fld (fld e grammar) element) cardinality) min))
         (or (isnil (fld (fld (fld (fld e grammar) element) cardinality) pMax))
             (<= (amount e) (deref (fld (fld (fld (fld e grammar) element) cardinality) pMax)))))
    (>= (amount e) (sumOcc (fld (fld (fld e grammar) compose) list) (len (fld (fld (fld e grammar) compose) list)))))))
(def elsOk ((l (Seq TrElement))) Bool (or (= (len l) 0) (and (elOk (nth l 0)) (elsOk (drop l 1)))))
(define (theEl l s) (nth l (lastEl l (len l) s)))
(def ctOk ((c Container) (l (Seq TrElement))) Bool
  (if (given (fld c element))
    (or (<= (fld (fld (fld c element) cardinality) min) 0)
        (and (>= (lastEl l (len l) (elName (fld c element))) 0)
             (<= (fld (fld (fld c element) cardinality) min) (amount (theEl l (elName (fld c element)))))))
    (and (>= (lastEl l (len l) (fld (fld c compose) name)) 0)
         (= (amount (theEl l (fld (fld c compose) name))) (sumOcc (fld (fld c compose) list) (len (fld (fld c compose) list)))))))
(def ctsOk ((c (Seq Container)) (l (Seq TrElement))) Bool (or (= (len c) 0) (and (ctOk (nth c 0) l) (ctsOk (drop c 1) l))))
(def lineOk ((l TrLine)) Bool
  (and (given l) (given (fld l elements)) (elsOk (fld (fld l elements) list))
    (or (fld l isReverse) (ctsOk (fld (fld l grammar) containers) (fld (fld l elements) list)))))
(func trees.element.Amount (results res) (inline) (behavior amount (ensures (= res (amount self)))))
(func trees.element.IsSuccessful (results res)
  (inv ((?a Int) ($l (Seq ComposeElement))) (= ?a (sumOcc $l k)))
  (behavior ok (ensures (= res (elOk self)))))
(func trees.line.IsSuccessful (results res)
  (shapes 1)
  (inv (($l (Seq TrElement))) (= (elsOk (drop $l k)) (elsOk $l)))
  (inv (($l (Seq Container))) (= (ctsOk (drop $l k) (fld (fld self elements) list)) (ctsOk $l (fld (fld self elements) list))))
  (inv ((?a Int) ($l (Seq ComposeElement))) (= ?a (sumOcc $l k)))
  (behavior ok (ensures (= res (lineOk self)))))
(def firstOk ((l (Seq TrLine))) TrLine
  (if (= (len l) 0) (nildef TrLine) (if (lineOk (nth l 0)) (nth l 0) (firstOk (drop l 1)))))
(lemma firstOk-app ((a (Seq TrLine)) (b (Seq TrLine))) (= (firstOk (++ a b)) (if (given (firstOk a)) (firstOk a) (firstOk b)))
  (split) (trigger (firstOk (++ a b))) (measure (len a)) (terms (firstOk (++ (drop a 1) b))))
(lemma firstOk-ok ((l (Seq TrLine))) (=> (given (firstOk l)) (lineOk (firstOk l))) (trigger (firstOk l)) (measure (len l)))
(invariant TrBlock (b) (=> (given (fld b successful)) (and (given (fld (fld b successful) elements)) (lineOk (fld b successful)))))
(func trees.blockBuilder.Now (results res err) (modifies (fld self lines))
  (inv (($l (Seq TrLine))) (= (firstOk (drop $l k)) (firstOk $l)))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self lines))) 1))
    (=> (ok err) (and (given res) (= (fld res lines) (old (fld self lines)))
      (= (fld res successful) (firstOk (old (fld self lines)))))))))
