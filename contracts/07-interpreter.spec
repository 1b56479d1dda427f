; ---- libs/interpreters: execution of programs ----
(pkg interp libs/interpreters/applications)
(pkg programs libs/interpreters/domain/programs)
(pkg pmodules libs/interpreters/domain/programs/modules)
(alias PValue programs.Value)
(alias PApp programs.Application)
(alias PAtt programs.Attachment)
(alias PIns programs.Instruction)
(alias PProgram programs.Program)
(alias PModule pmodules.Module)

; the history of the calls of the functions of the modules
(ghost hist Any)

; what the builders guarantee (checked wherever such a value is built)
(nilfield PValue (v) constant (or (given (fld v pInput)) (given (fld v execution)) (given (fld v program))))
(invariant PValue (v) (not (and (given (fld v execution)) (given (fld v program)))))
(invariant PIns (i) (or (given (fld i value)) (given (fld i execution))))
(invariant PApp (a) (given (fld a module)))
(invariant PModule (m) (not (isnil (fld m fn))))
(invariant PAtt (a) (given (fld a value)))
(invariant PProgram (p) (given (fld p instructions)))

; a value, evaluated on the inputs l after the calls h: the calls afterwards, whether it succeeds, the value
(def valHist ((v PValue) (l (Seq Any)) (h Any)) Any
  (if (given (fld v pInput)) h
  (if (given (fld v program)) (insHist (fld (fld (fld v program) instructions) list) l h)
  (if (given (fld v execution)) (appHist (fld v execution) l h) h))))
(def valOk ((v PValue) (l (Seq Any)) (h Any)) Bool
  (if (given (fld v pInput)) (< (deref (fld v pInput)) (len l))
  (if (given (fld v program)) (progOk (fld v program) l h)
  (if (given (fld v execution)) (appOk (fld v execution) l h) true))))
(def valRes ((v PValue) (l (Seq Any)) (h Any)) Any
  (if (given (fld v pInput)) (nth l (deref (fld v pInput)))
  (if (given (fld v program)) (box (progRes (fld v program) l h))
  (if (given (fld v execution)) (appRes (fld v execution) l h) (box (fld v constant))))))

; an application: its attachments are evaluated in order (the last value of a local counts), then its function is called once
(define (attsOf a) (if (given (fld a attachments)) (fld (fld a attachments) list) (empty (Seq PAtt))))
(def attHist ((al (Seq PAtt)) (l (Seq Any)) (h Any)) Any
  (if (= (len al) 0) h
  (if (valOk (fld (nth al 0) value) l h)
    (attHist (drop al 1) l (valHist (fld (nth al 0) value) l h))
    (valHist (fld (nth al 0) value) l h))))
(def attOk ((al (Seq PAtt)) (l (Seq Any)) (h Any)) Bool
  (or (= (len al) 0)
    (and (valOk (fld (nth al 0) value) l h) (attOk (drop al 1) l (valHist (fld (nth al 0) value) l h)))))
(def attMap ((al (Seq PAtt)) (l (Seq Any)) (h Any) (m (Map uint Any))) (Map uint Any)
  (if (= (len al) 0) m
    (attMap (drop al 1) l (valHist (fld (nth al 0) value) l h)
      (put m (fld (nth al 0) local) (valRes (fld (nth al 0) value) l h)))))
(def appHist ((a PApp) (l (Seq Any)) (h Any)) Any
  (if (attOk (attsOf a) l h)
    (fn.hist (attHist (attsOf a) l h) (fld (fld a module) fn) (attMap (attsOf a) l h (emptymap uint Any)))
    (attHist (attsOf a) l h)))
(def appOk ((a PApp) (l (Seq Any)) (h Any)) Bool
  (and (attOk (attsOf a) l h) (ok (fn.res 1 Err (appHist a l h)))))
(def appRes ((a PApp) (l (Seq Any)) (h Any)) Any
  (fn.res 0 Any (appHist a l h)))

; the instructions of a program run in order until one fails; values are kept by their position
(def insHist ((il (Seq PIns)) (l (Seq Any)) (h Any)) Any
  (if (= (len il) 0) h
  (if (given (fld (nth il 0) value))
    (if (valOk (fld (nth il 0) value) l h) (insHist (drop il 1) l (valHist (fld (nth il 0) value) l h)) (valHist (fld (nth il 0) value) l h))
    (if (appOk (fld (nth il 0) execution) l h) (insHist (drop il 1) l (appHist (fld (nth il 0) execution) l h)) (appHist (fld (nth il 0) execution) l h)))))
(def insOk ((il (Seq PIns)) (l (Seq Any)) (h Any)) Bool
  (if (= (len il) 0) true
  (if (given (fld (nth il 0) value))
    (and (valOk (fld (nth il 0) value) l h) (insOk (drop il 1) l (valHist (fld (nth il 0) value) l h)))
    (and (appOk (fld (nth il 0) execution) l h) (insOk (drop il 1) l (appHist (fld (nth il 0) execution) l h))))))
(def insMap ((il (Seq PIns)) (i Int) (l (Seq Any)) (h Any) (m (Map uint Any))) (Map uint Any)
  (if (= (len il) 0) m
  (if (given (fld (nth il 0) value))
    (insMap (drop il 1) (+ i 1) l (valHist (fld (nth il 0) value) l h) (put m i (valRes (fld (nth il 0) value) l h)))
    (insMap (drop il 1) (+ i 1) l (appHist (fld (nth il 0) execution) l h) m))))

; the outputs are the values at the output positions, in order
(def outOk ((ol (Seq uint)) (m (Map uint Any))) Bool
  (or (= (len ol) 0) (and (haskey m (nth ol 0)) (outOk (drop ol 1) m))))
(def outRes ((ol (Seq uint)) (m (Map uint Any)) (acc (Seq Any))) (Seq Any)
  (if (= (len ol) 0) acc (outRes (drop ol 1) m (++ acc (unit (get m (nth ol 0)))))))
(define (insOf p) (fld (fld p instructions) list))
(def progMap ((p PProgram) (l (Seq Any)) (h Any)) (Map uint Any)
  (insMap (insOf p) 0 l h (emptymap uint Any)))
(def progOk ((p PProgram) (l (Seq Any)) (h Any)) Bool
  (and (insOk (insOf p) l h) (outOk (fld p outputs) (progMap p l h))))
(def progRes ((p PProgram) (l (Seq Any)) (h Any)) (Seq Any)
  (outRes (fld p outputs) (progMap p l h) (empty (Seq Any))))

(func interp.application.Execute
  (params input program) (results res err) (nullable input)
  (modifies (ghost hist))
  (inv ((?m (Map uint Any)) ($l (Seq PIns)) ($in (Seq Any)))
    (= (insMap (drop $l k) k $in (ghost hist) ?m) (insMap $l 0 $in (old (ghost hist)) (emptymap uint Any))))
  (inv (($l (Seq PIns)) ($in (Seq Any)))
    (= (insOk (drop $l k) $in (ghost hist)) (insOk $l $in (old (ghost hist)))))
  (inv (($l (Seq PIns)) ($in (Seq Any)))
    (= (insHist (drop $l k) $in (ghost hist)) (insHist $l $in (old (ghost hist)))))
  (inv ((?f (Seq Any)) ($o (Seq uint)) ($m (Map uint Any)))
    (= (outRes (drop $o k) $m ?f) (outRes $o $m (empty (Seq Any)))))
  (inv (($o (Seq uint)) ($m (Map uint Any)))
    (= (outOk (drop $o k) $m) (outOk $o $m)))
  (behavior run
    (ensures (= (ghost hist) (insHist (insOf program) input (old (ghost hist))))
      (= (ok err) (progOk program input (old (ghost hist))))
      (=> (ok err) (= res (progRes program input (old (ghost hist))))))))

(func interp.application.executeValue
  (params input values value) (results res err) (nullable input values)
  (modifies (ghost hist))
  (behavior run
    (ensures (= (ghost hist) (valHist value input (old (ghost hist))))
      (= (ok err) (valOk value input (old (ghost hist))))
      (=> (ok err) (= res (valRes value input (old (ghost hist))))))))

(func interp.application.execute
  (params input values execution) (results res err) (nullable input values)
  (modifies (ghost hist))
  (inv ((?m (Map uint Any)) ($l (Seq PAtt)) ($in (Seq Any)))
    (= (attMap (drop $l k) $in (ghost hist) ?m) (attMap $l $in (old (ghost hist)) (emptymap uint Any))))
  (inv (($l (Seq PAtt)) ($in (Seq Any)))
    (= (attOk (drop $l k) $in (ghost hist)) (attOk $l $in (old (ghost hist)))))
  (inv (($l (Seq PAtt)) ($in (Seq Any)))
    (= (attHist (drop $l k) $in (ghost hist)) (attHist $l $in (old (ghost hist)))))
  (behavior run
    (ensures (= (ghost hist) (appHist execution input (old (ghost hist))))
      (= (ok err) (appOk execution input (old (ghost hist))))
      (=> (ok err) (= res (appRes execution input (old (ghost hist))))))))

(prop C25
  (interp.application.Execute run)
  (interp.application.executeValue run)
  (interp.application.execute run)
  (programs.valueBuilder.Now build)
  (programs.instructionBuilder.Now build)
  (programs.applicationBuilder.Now build)
  (programs.attachmentBuilder.Now build)
  (programs.builder.Now build)
  (pmodules.moduleBuilder.Now build))
