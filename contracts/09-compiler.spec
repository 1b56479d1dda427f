; ---- libs/interpreters: compilation of instructions ----
(pkg instructions libs/interpreters/domain/instructions)
(pkg imodules libs/interpreters/domain/instructions/modules)
(pkg iapplications libs/interpreters/domain/instructions/applications)
(pkg iparameters libs/interpreters/domain/instructions/parameters)
(pkg iattachments libs/interpreters/domain/instructions/attachments)
(alias IInstr instructions.Instruction)
(alias IInstrs instructions.Instructions)
(alias IValue instructions.Value)
(alias IAsg instructions.Assignment)
(alias IMod imodules.Module)
(alias IApp iapplications.Application)
(alias IParam iparameters.Parameter)
(alias IAtt iattachments.Attachment)
(alias IVar iattachments.Variable)
(alias Par interp.parameter)
(alias PModules pmodules.Modules)
(alias PInss programs.Instructions)
(alias PAtts programs.Attachments)
(sharedmap "map[string]libs/interpreters/domain/programs/modules.Module")
(sharedmap "map[string]libs/interpreters/domain/programs.Application")
(sharedmap "map[string]libs/interpreters/domain/programs.Value")
(sharedmap "map[string]*libs/interpreters/applications.parameter")

; what the builders guarantee (checked wherever such a value is built)
(nilfield IInstr (i) execution (or (given (fld i module)) (given (fld i application)) (given (fld i parameter)) (given (fld i assignment)) (given (fld i attachment))))
(nilassume IValue (v) variable (= (len (fld v variable)) 0))
(nilassume IValue (v) constant (= (len (fld v constant)) 0))
(nilassume IValue (v) execution (= (len (fld v execution)) 0))
(invariant Par (p) (given (fld p parameter)))
(invariant IValue (v)
  (or (= (len (fld v variable)) 0) (and (= (len (fld v constant)) 0) (isnil (fld v instructions)) (= (len (fld v execution)) 0)))
  (or (= (len (fld v constant)) 0) (and (isnil (fld v instructions)) (= (len (fld v execution)) 0)))
  (or (isnil (fld v instructions)) (= (len (fld v execution)) 0)))
(invariant IAsg (a) (given (fld a value)))
(invariant IAtt (a) (given (fld a variable)))

; the conversion of names; the number of input parameters among the declared ones
(fun nameOf (Func Bytes) Str)
(purefunc interp.NameBytesToString nameOf)
(fun inputs ((Map Str (Ptr Par))) Int (nonneg))
(axiom inputs-none () (why "definition of the number of input parameters: by the number of entries") (= (inputs (emptymap Str (Ptr Par))) 0))
(axiom inputs-put ((m (Map Str (Ptr Par))) (s Str) (p (Ptr Par))) (why "definition of the number of input parameters: an entry more")
  (trigger (inputs (put m s p)))
  (=> (not (haskey m s)) (= (inputs (put m s p)) (+ (inputs m) (if (fld (fld p parameter) isInput) 1 0)))))

; one instruction on what is declared before it: modules m, applications a, parameters p, values v
(define (isVar v) (> (len (fld v variable)) 0))
(define (isConst v) (> (len (fld v constant)) 0))
(define (isExec v) (> (len (fld v execution)) 0))
(define (input? p s) (and (haskey p s) (fld (fld (get p s) parameter) isInput)))
(define (output? p s) (and (haskey p s) (not (fld (fld (get p s) parameter) isInput))))
(define (mkInput n) (mk PValue (some n) (empty Bytes) (nildef PApp) (nildef PProgram)))
(define (inputOf p s) (mkInput (fld (get p s) inputParameterIndex)))
(def asgOk ((v IValue) (ml PModules) (f Func) (a (Map Str PApp)) (p (Map Str (Ptr Par)))) Bool
  (if (isVar v) (input? p (nameOf f (fld v variable)))
  (if (isConst v) true
  (if (given (fld v instructions)) (compOk (fld v instructions) ml f)
  (and (isExec v) (haskey a (nameOf f (fld v execution))))))))
(def asgVal ((v IValue) (ml PModules) (f Func) (a (Map Str PApp)) (p (Map Str (Ptr Par)))) PValue
  (if (isVar v) (inputOf p (nameOf f (fld v variable)))
  (if (isConst v) (mk PValue (nildef (Ptr uint)) (fld v constant) (nildef PApp) (nildef PProgram))
  (if (given (fld v instructions)) (mk PValue (nildef (Ptr uint)) (empty Bytes) (nildef PApp) (compRes (fld v instructions) ml f))
  (mk PValue (nildef (Ptr uint)) (empty Bytes) (get a (nameOf f (fld v execution))) (nildef PProgram))))))
(define (attVal p v s) (if (haskey v s) (get v s) (inputOf p s)))
(define (attached x val loc) (mk PApp (fld x index) (fld x module) (mk PAtts (++ (attsOf x) (unit (mk PAtt val loc))))))
(define (kMod i) (given (fld i module)))
(define (kApp i) (and (not (kMod i)) (given (fld i application))))
(define (kPar i) (and (not (kMod i)) (isnil (fld i application)) (given (fld i parameter))))
(define (kAsg i) (and (not (kMod i)) (isnil (fld i application)) (isnil (fld i parameter)) (given (fld i assignment))))
(define (kAtt i) (and (not (kMod i)) (isnil (fld i application)) (isnil (fld i parameter)) (isnil (fld i assignment)) (given (fld i attachment))))
(define (kExe i) (and (not (kMod i)) (isnil (fld i application)) (isnil (fld i parameter)) (isnil (fld i assignment)) (isnil (fld i attachment))))
(define (modName f x) (nameOf f (fld x name)))
(define (asgName f i) (nameOf f (fld (fld i assignment) variable)))
(define (curName f x) (nameOf f (fld (fld x variable) current)))

(def oneOk ((i IInstr) (ml PModules) (f Func) (m (Map Str PModule)) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue))) Bool
  (if (kMod i) (and (haskey (fld ml mp) (fld (fld i module) index)) (not (haskey m (nameOf f (fld (fld i module) name)))))
  (if (kApp i) (and (not (haskey a (nameOf f (fld (fld i application) name)))) (haskey m (nameOf f (fld (fld i application) module))))
  (if (kPar i) (not (haskey p (nameOf f (fld (fld i parameter) name))))
  (if (kAsg i) (asgOk (fld (fld i assignment) value) ml f a p)
  (if (kAtt i) (and (or (haskey v (curName f (fld i attachment))) (input? p (curName f (fld i attachment))))
                    (haskey a (nameOf f (fld (fld i attachment) application))))
    (haskey a (nameOf f (fld i execution)))))))))
(def mods+ ((i IInstr) (ml PModules) (f Func) (m (Map Str PModule))) (Map Str PModule)
  (if (kMod i) (put m (nameOf f (fld (fld i module) name)) (get (fld ml mp) (fld (fld i module) index))) m))
(def apps+ ((i IInstr) (f Func) (m (Map Str PModule)) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue))) (Map Str PApp)
  (if (and (kApp i) (given (get m (nameOf f (fld (fld i application) module)))))
    (put a (nameOf f (fld (fld i application) name)) (mk PApp (mapsize a) (get m (nameOf f (fld (fld i application) module))) (nildef PAtts)))
  (if (and (kAtt i) (given (get a (nameOf f (fld (fld i attachment) application)))) (given (attVal p v (curName f (fld i attachment)))))
    (put a (nameOf f (fld (fld i attachment) application))
      (attached (get a (nameOf f (fld (fld i attachment) application))) (attVal p v (curName f (fld i attachment))) (fld (fld (fld i attachment) variable) target)))
    a)))
(def pars+ ((i IInstr) (f Func) (p (Map Str (Ptr Par)))) (Map Str (Ptr Par))
  (if (kPar i) (put p (nameOf f (fld (fld i parameter) name)) (mk (Ptr Par) (mapsize p) (inputs p) (fld i parameter))) p))
(def vals+ ((i IInstr) (ml PModules) (f Func) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue))) (Map Str PValue)
  (if (kAsg i) (put v (asgName f i) (asgVal (fld (fld i assignment) value) ml f a p)) v))
(def outs+ ((i IInstr) (f Func) (p (Map Str (Ptr Par))) (o (Seq uint)) (l (Seq PIns))) (Seq uint)
  (if (and (kAsg i) (output? p (asgName f i))) (++ o (unit (len l))) o))
(def list+ ((i IInstr) (ml PModules) (f Func) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (l (Seq PIns))) (Seq PIns)
  (if (kAsg i) (++ l (unit (mk PIns (asgVal (fld (fld i assignment) value) ml f a p) (nildef PApp))))
  (if (and (kExe i) (given (get a (nameOf f (fld i execution))))) (++ l (unit (mk PIns (nildef PValue) (get a (nameOf f (fld i execution)))))) l)))

; instructions, one after another
(def cOk ((il (Seq IInstr)) (ml PModules) (f Func) (m (Map Str PModule)) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue))) Bool
  (or (= (len il) 0)
    (and (oneOk (nth il 0) ml f m a p v)
      (cOk (drop il 1) ml f (mods+ (nth il 0) ml f m) (apps+ (nth il 0) f m a p v) (pars+ (nth il 0) f p) (vals+ (nth il 0) ml f a p v)))))
(def cList ((il (Seq IInstr)) (ml PModules) (f Func) (m (Map Str PModule)) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue)) (l (Seq PIns))) (Seq PIns)
  (if (= (len il) 0) l
    (cList (drop il 1) ml f (mods+ (nth il 0) ml f m) (apps+ (nth il 0) f m a p v) (pars+ (nth il 0) f p) (vals+ (nth il 0) ml f a p v) (list+ (nth il 0) ml f a p l))))
(def cOut ((il (Seq IInstr)) (ml PModules) (f Func) (m (Map Str PModule)) (a (Map Str PApp)) (p (Map Str (Ptr Par))) (v (Map Str PValue)) (l (Seq PIns)) (o (Seq uint))) (Seq uint)
  (if (= (len il) 0) o
    (cOut (drop il 1) ml f (mods+ (nth il 0) ml f m) (apps+ (nth il 0) f m a p v) (pars+ (nth il 0) f p) (vals+ (nth il 0) ml f a p v) (list+ (nth il 0) ml f a p l) (outs+ (nth il 0) f p o l))))
(define (noMods) (emptymap Str PModule))
(define (noApps) (emptymap Str PApp))
(define (noPars) (emptymap Str (Ptr Par)))
(define (noVals) (emptymap Str PValue))
(def compList ((is IInstrs) (ml PModules) (f Func)) (Seq PIns)
  (cList (fld is list) ml f (noMods) (noApps) (noPars) (noVals) (empty (Seq PIns))))
(def compOk ((is IInstrs) (ml PModules) (f Func)) Bool
  (and (cOk (fld is list) ml f (noMods) (noApps) (noPars) (noVals)) (> (len (compList is ml f)) 0)))
(def compRes ((is IInstrs) (ml PModules) (f Func)) PProgram
  (mk PProgram (mk PInss (compList is ml f))
    (cOut (fld is list) ml f (noMods) (noApps) (noPars) (noVals) (empty (Seq PIns)) (empty (Seq uint)))))

(define (F s) (fld s nameBytesToStringFn))
(func pmodules.modules.Fetch
  (params index) (results res err)
  (behavior fetch
    (ensures (= (ok err) (haskey (fld self mp) index))
      (=> (ok err) (and (given res) (= res (get (fld self mp) index)))))))

(func interp.application.compileModule
  (params insModule loadedModules allModules) (results res err)
  (modifies (map loadedModules))
  (requires (not (isnil loadedModules)))
  (behavior run
    (ensures (= (ok err) (and (haskey (fld allModules mp) (fld insModule index)) (not (haskey (old loadedModules) (nameOf (F self) (fld insModule name))))))
      (=> (ok err) (same res loadedModules))
      (=> (ok err) (= loadedModules (put (old loadedModules) (nameOf (F self) (fld insModule name)) (get (fld allModules mp) (fld insModule index))))))))

(func interp.application.compileApplication
  (params application inModules inApplications) (results res err)
  (modifies (map inApplications))
  (requires (not (isnil inModules)) (not (isnil inApplications)))
  (behavior run
    (ensures (= (ok err) (and (not (haskey (old inApplications) (nameOf (F self) (fld application name)))) (haskey inModules (nameOf (F self) (fld application module)))))
      (=> (ok err) (same res inApplications))
      (=> (ok err) (given (get inModules (nameOf (F self) (fld application module)))))
      (=> (ok err) (= inApplications (put (old inApplications) (nameOf (F self) (fld application name))
          (mk PApp (mapsize (old inApplications)) (get inModules (nameOf (F self) (fld application module))) (nildef PAtts))))))))

(func interp.application.compileParameter
  (params parameterIns inParameters) (results res err)
  (modifies (map inParameters))
  (inv ((?c uint)) (and (>= ?c 0) (<= ?c k)))
  (inv ((?c uint) (?m (Map Str (Ptr Par)))) (= (inputs ?m) ?c))
  (requires (not (isnil inParameters)))
  (behavior run
    (ensures (= (ok err) (not (haskey (old inParameters) (nameOf (F self) (fld parameterIns name)))))
      (=> (ok err) (same res inParameters))
      (=> (ok err) (= inParameters (put (old inParameters) (nameOf (F self) (fld parameterIns name))
          (mk (Ptr Par) (mapsize (old inParameters)) (inputs (old inParameters)) parameterIns)))))))

(func interp.application.compileAttachmentValue
  (params variable inParameters inValues allModules) (results res err)
  (requires (not (isnil inParameters)) (not (isnil inValues)))
  (behavior run
    (ensures (= (ok err) (or (haskey inValues (nameOf (F self) (fld variable current))) (input? inParameters (nameOf (F self) (fld variable current)))))
      (=> (ok err) (and (given res) (= res (attVal inParameters inValues (nameOf (F self) (fld variable current)))))))))

(func interp.application.compileAttachment
  (params attachment inParameters inValues inApplications allModules) (results res err)
  (modifies (map inApplications))
  (requires (not (isnil inParameters)) (not (isnil inValues)) (not (isnil inApplications)))
  (behavior run
    (ensures (= (ok err) (and (or (haskey inValues (curName (F self) attachment)) (input? inParameters (curName (F self) attachment)))
        (haskey (old inApplications) (nameOf (F self) (fld attachment application)))))
      (=> (ok err) (same res inApplications))
      (=> (ok err) (and (given (get (old inApplications) (nameOf (F self) (fld attachment application)))) (given (attVal inParameters inValues (curName (F self) attachment)))))
      (=> (ok err) (= inApplications (put (old inApplications) (nameOf (F self) (fld attachment application))
        (attached (get (old inApplications) (nameOf (F self) (fld attachment application))) (attVal inParameters inValues (curName (F self) attachment)) (fld (fld attachment variable) target))))))))

(func interp.application.compileExecution
  (params execution inApplications inInstructions) (results res err) (nullable execution inInstructions)
  (requires (not (isnil inApplications)))
  (behavior run
    (ensures (= (ok err) (haskey inApplications (nameOf (F self) execution)))
      (=> (ok err) (given (get inApplications (nameOf (F self) execution))))
      (=> (ok err) (= res (++ inInstructions (unit (mk PIns (nildef PValue) (get inApplications (nameOf (F self) execution))))))))))

(func interp.application.compileValue
  (params assignment inParameters inApplications allModules) (results res err)
  (requires (not (isnil inParameters)) (not (isnil inApplications)))
  (behavior run
    (ensures (= (ok err) (asgOk (fld assignment value) allModules (F self) inApplications inParameters))
      (=> (ok err) (and (given res) (= res (asgVal (fld assignment value) allModules (F self) inApplications inParameters)))))))

(func interp.application.compileInstruction
  (params instruction inModules inApplications inParameters inOutput inValues inInstructions allModules)
  (results outModules outApplications outParameters outOutput outValues outInstructions err)
  (nullable inOutput inInstructions)
  (modifies (map inModules) (map inApplications) (map inParameters) (map inValues))
  (requires (not (isnil inModules)) (not (isnil inApplications)) (not (isnil inParameters)) (not (isnil inValues)))
  (behavior run
    (ensures (= (ok err) (oneOk instruction allModules (F self) (old inModules) (old inApplications) (old inParameters) (old inValues)))
      (=> (ok err) (and (same outModules inModules) (same outApplications inApplications) (same outParameters inParameters) (same outValues inValues)))
      (=> (ok err) (= inModules (mods+ instruction allModules (F self) (old inModules))))
      (=> (ok err) (= inApplications (apps+ instruction (F self) (old inModules) (old inApplications) (old inParameters) (old inValues))))
      (=> (ok err) (= inParameters (pars+ instruction (F self) (old inParameters))))
      (=> (ok err) (= inValues (vals+ instruction allModules (F self) (old inApplications) (old inParameters) (old inValues))))
      (=> (ok err) (= outOutput (outs+ instruction (F self) (old inParameters) inOutput inInstructions)))
      (=> (ok err) (= outInstructions (list+ instruction allModules (F self) (old inApplications) (old inParameters) inInstructions))))))

(func interp.application.Compile
  (params modulesIns instructions) (results res err)
  (inv ((?m (Map Str PModule)) (?a (Map Str PApp)) (?p (Map Str (Ptr Par))) (?v (Map Str PValue)) ($$l (Seq IInstr)))
    (= (cOk (drop $$l k) modulesIns (F self) ?m ?a ?p ?v) (cOk $$l modulesIns (F self) (entry ?m) (entry ?a) (entry ?p) (entry ?v))))
  (inv ((?m (Map Str PModule)) (?a (Map Str PApp)) (?p (Map Str (Ptr Par))) (?v (Map Str PValue)) (?i (Seq PIns)) ($$l (Seq IInstr)))
    (= (cList (drop $$l k) modulesIns (F self) ?m ?a ?p ?v ?i) (cList $$l modulesIns (F self) (entry ?m) (entry ?a) (entry ?p) (entry ?v) (entry ?i))))
  (inv ((?m (Map Str PModule)) (?a (Map Str PApp)) (?p (Map Str (Ptr Par))) (?v (Map Str PValue)) (?i (Seq PIns)) (?o (Seq uint)) ($$l (Seq IInstr)))
    (= (cOut (drop $$l k) modulesIns (F self) ?m ?a ?p ?v ?i ?o) (cOut $$l modulesIns (F self) (entry ?m) (entry ?a) (entry ?p) (entry ?v) (entry ?i) (entry ?o))))
  (behavior run
    (ensures (= (ok err) (compOk instructions modulesIns (F self)))
      (=> (ok err) (and (given res) (= res (compRes instructions modulesIns (F self))))))))

(prop C24
  (interp.application.Compile run)
  (interp.application.compileInstruction run)
  (interp.application.compileModule run)
  (interp.application.compileApplication run)
  (interp.application.compileParameter run)
  (interp.application.compileValue run)
  (interp.application.compileAttachmentValue run)
  (interp.application.compileAttachment run)
  (interp.application.compileExecution run)
  (pmodules.modules.Fetch fetch)
  (instructions.instructionBuilder.Now build)
  (instructions.assignmentBuilder.Now build)
  (iattachments.builder.Now build))
