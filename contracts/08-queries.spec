; ---- libs/queries: execution of queries ----
(pkg qapp libs/queries/applications)
(pkg queries libs/queries/domain/queries)
(alias Query queries.Query)
(alias QToken queries.Token)
(alias QElement queries.Element)
(alias QInside queries.Inside)
(alias QFetcher queries.Fetcher)
(alias QFetchers queries.Fetchers)
(alias QFn queries.QueryFn)
(alias CFn queries.ContentFn)
(sharedmap "map[string]libs/queries/domain/queries.Query")

(invariant Query (q) (given (fld q token)) (given (fld q inside)) (given (fld q fn)))
(invariant QToken (t) (given (fld t element)))
(invariant QInside (i) (or (given (fld i fn)) (given (fld i fetchers))))
(invariant QFn (f) (or (given (fld f single)) (given (fld f multi))))
(invariant CFn (f) (or (given (fld f single)) (given (fld f multi))))

; the element at the asked position among those with the asked name, and of its contents all or the asked one
(define (qMatch e t)
  (if (given (fld e grammar)) (= (ctName (fld e grammar)) (fld (fld t element) name))
    (= (fld (fld t element) name) (fld t reverseName))))
(define (refineOk l t) (or (isnil (fld t pContent)) (< (deref (fld t pContent)) (len l))))
(define (refine l t) (if (isnil (fld t pContent)) l (unit (nth l (deref (fld t pContent))))))
(define (ctsOf e) (fld (fld e contents) list))
(def selOk ((l (Seq TrElement)) (t QToken) (c Int)) Bool
  (if (= (len l) 0) true
  (if (qMatch (nth l 0) t)
    (if (= (fld (fld t element) index) c) (refineOk (ctsOf (nth l 0)) t) (selOk (drop l 1) t (+ c 1)))
    (selOk (drop l 1) t c))))
(def sel ((l (Seq TrElement)) (t QToken) (c Int)) (Seq TrContent)
  (if (= (len l) 0) (empty (Seq TrContent))
  (if (qMatch (nth l 0) t)
    (if (= (fld (fld t element) index) c) (refine (ctsOf (nth l 0)) t) (sel (drop l 1) t (+ c 1)))
    (sel (drop l 1) t c))))
(def selectOk ((q Query) (tr Tree)) Bool
  (and (= (fld (fld q token) name) (fld (fld tr grammar) name)) (succ tr) (selOk (els tr) (fld q token) 0)))
(def selected ((q Query) (tr Tree)) (Seq TrContent) (sel (els tr) (fld q token) 0))

; a fetcher on a content (values are passed over); pm: the last query started on each token
(define (target f pm) (if (given (fld f query)) (fld f query) (get pm (fld f recursive))))
(define (targetOk f pm) (or (given (fld f query)) (haskey pm (fld f recursive))))
(def rowOk ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) Bool
  (if (= (len fl) 0) true
  (if (given (fld c value)) (rowOk (drop fl 1) c pm h)
    (and (targetOk (nth fl 0) pm) (qOk (target (nth fl 0) pm) (fld c tree) pm h)
      (rowOk (drop fl 1) c (qMap (target (nth fl 0) pm) (fld c tree) pm h) (qHist (target (nth fl 0) pm) (fld c tree) pm h))))))
(def rowHist ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) Any
  (if (= (len fl) 0) h
  (if (given (fld c value)) (rowHist (drop fl 1) c pm h)
  (if (targetOk (nth fl 0) pm)
    (if (qOk (target (nth fl 0) pm) (fld c tree) pm h)
      (rowHist (drop fl 1) c (qMap (target (nth fl 0) pm) (fld c tree) pm h) (qHist (target (nth fl 0) pm) (fld c tree) pm h))
      (qHist (target (nth fl 0) pm) (fld c tree) pm h))
    h))))
(def rowMap ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) (Map Str Query)
  (if (= (len fl) 0) pm
  (if (given (fld c value)) (rowMap (drop fl 1) c pm h)
    (rowMap (drop fl 1) c (qMap (target (nth fl 0) pm) (fld c tree) pm h) (qHist (target (nth fl 0) pm) (fld c tree) pm h)))))
(def row ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any) (acc (Seq Any))) (Seq Any)
  (if (= (len fl) 0) acc
  (if (given (fld c value)) (row (drop fl 1) c pm h acc)
    (row (drop fl 1) c (qMap (target (nth fl 0) pm) (fld c tree) pm h) (qHist (target (nth fl 0) pm) (fld c tree) pm h)
      (if (qValid (target (nth fl 0) pm) (fld c tree) pm h) (++ acc (unit (qRes (target (nth fl 0) pm) (fld c tree) pm h))) acc)))))

; a content that is a value is passed over by every fetcher
(lemma rowOk-value ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) (hyp (given (fld c value))) (rowOk fl c pm h)
  (trigger (rowOk fl c pm h)) (measure (len fl)))
(lemma rowHist-value ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) (hyp (given (fld c value))) (= (rowHist fl c pm h) h)
  (trigger (rowHist fl c pm h)) (measure (len fl)))
(lemma rowMap-value ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any)) (hyp (given (fld c value))) (= (rowMap fl c pm h) pm)
  (trigger (rowMap fl c pm h)) (measure (len fl)))
(lemma row-value ((fl (Seq QFetcher)) (c TrContent) (pm (Map Str Query)) (h Any) (acc (Seq Any))) (hyp (given (fld c value))) (= (row fl c pm h acc) acc)
  (trigger (row fl c pm h acc)) (measure (len fl)))

; every fetcher on every content
(def rowsOk ((fl (Seq QFetcher)) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Bool
  (if (= (len cl) 0) true
    (and (rowOk fl (nth cl 0) pm h) (rowsOk fl (drop cl 1) (rowMap fl (nth cl 0) pm h) (rowHist fl (nth cl 0) pm h)))))
(def rowsHist ((fl (Seq QFetcher)) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Any
  (if (= (len cl) 0) h
  (if (rowOk fl (nth cl 0) pm h) (rowsHist fl (drop cl 1) (rowMap fl (nth cl 0) pm h) (rowHist fl (nth cl 0) pm h))
    (rowHist fl (nth cl 0) pm h))))
(def rowsMap ((fl (Seq QFetcher)) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) (Map Str Query)
  (if (= (len cl) 0) pm
    (rowsMap fl (drop cl 1) (rowMap fl (nth cl 0) pm h) (rowHist fl (nth cl 0) pm h))))
(def rows ((fl (Seq QFetcher)) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any) (acc (Seq Any))) (Seq Any)
  (if (= (len cl) 0) acc
    (rows fl (drop cl 1) (rowMap fl (nth cl 0) pm h) (rowHist fl (nth cl 0) pm h) (++ acc (row fl (nth cl 0) pm h (empty (Seq Any)))))))

; what is inside a query: its content function, or its fetchers
(define (fetchersOf i) (fld (fld i fetchers) list))
(define (single? i) (given (fld (fld i fn) single)))
(def insideHist ((i QInside) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Any
  (if (given (fld i fn))
    (if (single? i) (if (= (len cl) 0) h (fn.hist h (fld (fld i fn) single) (nth cl 0)))
      (fn.hist h (fld (fld i fn) multi) cl))
    (rowsHist (fetchersOf i) cl pm h)))
(def insideOk ((i QInside) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Bool
  (if (given (fld i fn))
    (and (or (not (single? i)) (> (len cl) 0)) (ok (fn.res 1 Err (insideHist i cl pm h))))
    (rowsOk (fetchersOf i) cl pm h)))
(def insideMap ((i QInside) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) (Map Str Query)
  (if (given (fld i fn)) pm (rowsMap (fetchersOf i) cl pm h)))
(def insideRes ((i QInside) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) (Seq Any)
  (if (given (fld i fn)) (fn.res 0 (Seq Any) (insideHist i cl pm h))
    (rows (fetchersOf i) cl pm h (empty (Seq Any)))))

; the function of a query receives what was collected, and decides; it is not called when nothing was collected
(define (insideGood q cl pm h) (insideOk (fld q inside) cl pm h))
(define (collected q cl pm h) (insideRes (fld q inside) cl pm h))
(def instHist ((q Query) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Any
  (if (and (insideGood q cl pm h) (> (len (collected q cl pm h)) 0))
    (if (given (fld (fld q fn) single))
      (fn.hist (insideHist (fld q inside) cl pm h) (fld (fld q fn) single) (nth (collected q cl pm h) 0))
      (fn.hist (insideHist (fld q inside) cl pm h) (fld (fld q fn) multi) (collected q cl pm h)))
    (insideHist (fld q inside) cl pm h)))
(define (called q cl pm h) (> (len (collected q cl pm h)) 0))
(def instOk ((q Query) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Bool
  (and (insideGood q cl pm h) (or (not (called q cl pm h)) (ok (fn.res 2 Err (instHist q cl pm h))))))
(def instValid ((q Query) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Bool
  (and (called q cl pm h) (fn.res 1 Bool (instHist q cl pm h))))
(def instRes ((q Query) (cl (Seq TrContent)) (pm (Map Str Query)) (h Any)) Any
  (fn.res 0 Any (instHist q cl pm h)))

; a query on a tree
(define (started q pm) (put pm (fld (fld q token) name) q))
(def qHist ((q Query) (tr Tree) (pm (Map Str Query)) (h Any)) Any
  (if (selectOk q tr) (instHist q (selected q tr) (started q pm) h) h))
(def qOk ((q Query) (tr Tree) (pm (Map Str Query)) (h Any)) Bool
  (and (selectOk q tr) (instOk q (selected q tr) (started q pm) h)))
(def qMap ((q Query) (tr Tree) (pm (Map Str Query)) (h Any)) (Map Str Query)
  (if (selectOk q tr) (insideMap (fld q inside) (selected q tr) (started q pm) h) pm))
(def qValid ((q Query) (tr Tree) (pm (Map Str Query)) (h Any)) Bool
  (instValid q (selected q tr) (started q pm) h))
(def qRes ((q Query) (tr Tree) (pm (Map Str Query)) (h Any)) Any
  (instRes q (selected q tr) (started q pm) h))

(func qapp.application.queryContents
  (params query tree) (results res err)
  (inv ((?c uint)) (and (>= ?c 0) (<= ?c k)))
  (inv ((?c uint) ($l (Seq TrElement))) (= (selOk (drop $l k) (fld query token) ?c) (selOk $l (fld query token) 0)))
  (inv ((?c uint) ($l (Seq TrElement))) (= (sel (drop $l k) (fld query token) ?c) (sel $l (fld query token) 0)))
  (behavior select
    (ensures (= (ok err) (selectOk query tree)) (=> (ok err) (= res (selected query tree))))))

(func qapp.application.insideInstances
  (params inside contentList previous) (results res err) (nullable contentList)
  (requires (not (isnil previous)))
  (modifies (ghost hist) (map previous))
  (inv (($$c (Seq TrContent))) (= (rowsOk (fetchersOf inside) (drop $$c k) previous (ghost hist)) (rowsOk (fetchersOf inside) $$c (entry previous) (entry (ghost hist)))))
  (inv (($$c (Seq TrContent))) (= (rowsHist (fetchersOf inside) (drop $$c k) previous (ghost hist)) (rowsHist (fetchersOf inside) $$c (entry previous) (entry (ghost hist)))))
  (inv (($$c (Seq TrContent))) (= (rowsMap (fetchersOf inside) (drop $$c k) previous (ghost hist)) (rowsMap (fetchersOf inside) $$c (entry previous) (entry (ghost hist)))))
  (inv ((?o (Seq Any)) ($$c (Seq TrContent))) (= (rows (fetchersOf inside) (drop $$c k) previous (ghost hist) ?o) (rows (fetchersOf inside) $$c (entry previous) (entry (ghost hist)) (entry ?o))))
  (inv (($$f (Seq QFetcher)) ($c TrContent)) (= (rowOk (drop $$f k) $c previous (ghost hist)) (rowOk $$f $c (entry previous) (entry (ghost hist)))))
  (inv (($$f (Seq QFetcher)) ($c TrContent)) (= (rowHist (drop $$f k) $c previous (ghost hist)) (rowHist $$f $c (entry previous) (entry (ghost hist)))))
  (inv (($$f (Seq QFetcher)) ($c TrContent)) (= (rowMap (drop $$f k) $c previous (ghost hist)) (rowMap $$f $c (entry previous) (entry (ghost hist)))))
  (inv ((?o (Seq Any)) ($$f (Seq QFetcher)) ($c TrContent)) (= (row (drop $$f k) $c previous (ghost hist) ?o) (row $$f $c (entry previous) (entry (ghost hist)) (entry ?o))))
  (behavior fetch
    (ensures (= (ghost hist) (insideHist inside contentList (old previous) (old (ghost hist))))
      (= (ok err) (insideOk inside contentList (old previous) (old (ghost hist))))
      (=> (ok err) (= previous (insideMap inside contentList (old previous) (old (ghost hist)))))
      (=> (ok err) (= res (insideRes inside contentList (old previous) (old (ghost hist))))))))

(func qapp.application.queryInstance
  (params query contentList previous) (results res valid err) (nullable contentList)
  (requires (not (isnil previous)))
  (modifies (ghost hist) (map previous))
  (behavior run
    (ensures (= (ghost hist) (instHist query contentList (old previous) (old (ghost hist))))
      (= (ok err) (instOk query contentList (old previous) (old (ghost hist))))
      (=> (ok err) (= previous (insideMap (fld query inside) contentList (old previous) (old (ghost hist)))))
      (=> (ok err) (= valid (instValid query contentList (old previous) (old (ghost hist)))))
      (=> (and (ok err) valid) (= res (instRes query contentList (old previous) (old (ghost hist))))))))

(define (before previous) (if (isnil previous) (emptymap Str Query) previous))
(func qapp.application.queryFetch
  (params query tree previous) (results res valid err) (nullable previous)
  (modifies (ghost hist) (map previous))
  (behavior run
    (ensures (= (ghost hist) (qHist query tree (old (before previous)) (old (ghost hist))))
      (= (ok err) (qOk query tree (old (before previous)) (old (ghost hist))))
      (=> (and (ok err) (not (isnil previous))) (= previous (qMap query tree (old (before previous)) (old (ghost hist)))))
      (=> (ok err) (= valid (qValid query tree (old (before previous)) (old (ghost hist)))))
      (=> (and (ok err) valid) (= res (qRes query tree (old (before previous)) (old (ghost hist))))))))

(func qapp.application.Execute
  (params query tree) (results res valid rm err)
  (modifies (ghost hist))
  (behavior run
    (ensures (= (ghost hist) (qHist query tree (emptymap Str Query) (old (ghost hist))))
      (= (ok err) (qOk query tree (emptymap Str Query) (old (ghost hist))))
      (=> (ok err) (= valid (qValid query tree (emptymap Str Query) (old (ghost hist)))))
      (=> (and (ok err) valid) (= res (qRes query tree (emptymap Str Query) (old (ghost hist)))))
      (=> (ok err) (= rm (fld tree remaining))))))

(prop C26
  (qapp.application.Execute run)
  (qapp.application.queryFetch run)
  (qapp.application.queryContents select)
  (qapp.application.queryInstance run)
  (qapp.application.insideInstances fetch)
  (queries.builder.Now build)
  (queries.tokenBuilder.Now build)
  (queries.insideBuilder.Now build)
  (queries.queryFnBuilder.Now build)
  (queries.contentFnBuilder.Now build))
