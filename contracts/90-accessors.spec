(func values.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res pNumber)))))
(func values.builder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func values.builder.WithNumber (params number) (results res) (inline) (nullable number) (modifies (fld self pNumber))
  (behavior set (ensures (= res self) (not (isnil (fld self pNumber))) (= (deref (fld self pNumber)) number))))
(func values.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (not (isnil (fld self pNumber)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res number) (deref (fld self pNumber))))))))
(func values.value.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func values.value.Number (results res) (inline)
  (behavior get (ensures (= res (fld self number)))))
(func cardinalities.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pMin)) (isnil (fld res pMax)))))
(func cardinalities.builder.WithMin (params min) (results res) (inline) (nullable min) (modifies (fld self pMin))
  (behavior set (ensures (= res self) (not (isnil (fld self pMin))) (= (deref (fld self pMin)) min))))
(func cardinalities.builder.WithMax (params max) (results res) (inline) (nullable max) (modifies (fld self pMax))
  (behavior set (ensures (= res self) (not (isnil (fld self pMax))) (= (deref (fld self pMax)) max))))
(func cardinalities.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self pMin))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res min) (deref (fld self pMin)))
        (= (fld res pMax) (fld self pMax)))))))
(func cardinalities.cardinality.Min (results res) (inline)
  (behavior get (ensures (= res (fld self min)))))
(func cardinalities.cardinality.HasMax (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self pMax)))))))
(func cardinalities.cardinality.Max (results res) (inline)
  (behavior get (ensures (= res (fld self pMax)))))
(func grammars.block.Lines (results res) (inline)
  (behavior get (ensures (= res (fld self lines)))))
(func grammars.blockBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res lines)) (= (len (fld res lines)) 0))))
(func grammars.blockBuilder.WithLines (params lines) (results res) (inline) (nullable lines) (modifies (fld self lines))
  (behavior set (ensures (= res self) (= (fld self lines) lines))))
(func grammars.blockBuilder.Now (results res err) (inline) (modifies (fld self lines))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self lines))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res lines) (old (fld self lines))))))))
(func grammars.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res root)) (isnil (fld res channels)))))
(func grammars.builder.WithRoot (params root) (results res) (inline) (nullable root) (modifies (fld self root))
  (behavior set (ensures (= res self) (= (fld self root) root))))
(func grammars.builder.WithChannels (params channels) (results res) (inline) (nullable channels) (modifies (fld self channels))
  (behavior set (ensures (= res self) (= (fld self channels) channels))))
(func grammars.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self root))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res root) (fld self root))
        (= (fld res channels) (fld self channels)))))))
(func grammars.channel.Token (results res) (inline)
  (behavior get (ensures (= res (fld self token)))))
(func grammars.channel.HasCondition (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self condition)))))))
(func grammars.channel.Condition (results res) (inline)
  (behavior get (ensures (= res (fld self condition)))))
(func grammars.channelBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res token)) (isnil (fld res condition)))))
(func grammars.channelBuilder.WithToken (params token) (results res) (inline) (nullable token) (modifies (fld self token))
  (behavior set (ensures (= res self) (= (fld self token) token))))
(func grammars.channelBuilder.WithCondition (params condition) (results res) (inline) (nullable condition) (modifies (fld self condition))
  (behavior set (ensures (= res self) (= (fld self condition) condition))))
(func grammars.channelBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self token))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res token) (fld self token))
        (= (fld res condition) (fld self condition)))))))
(func grammars.channelCondition.HasPrevious (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self prev)))))))
(func grammars.channelCondition.Previous (results res) (inline)
  (behavior get (ensures (= res (fld self prev)))))
(func grammars.channelCondition.HasNext (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self next)))))))
(func grammars.channelCondition.Next (results res) (inline)
  (behavior get (ensures (= res (fld self next)))))
(func grammars.channelConditionBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res prev)) (isnil (fld res next)))))
(func grammars.channelConditionBuilder.WithPrevious (params previous) (results res) (inline) (nullable previous) (modifies (fld self prev))
  (behavior set (ensures (= res self) (= (fld self prev) previous))))
(func grammars.channelConditionBuilder.WithNext (params next) (results res) (inline) (nullable next) (modifies (fld self next))
  (behavior set (ensures (= res self) (= (fld self next) next))))
(func grammars.channelConditionBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) true)
      (=> (ok err) (and (not (isnil res))
        (= (fld res prev) (fld self prev))
        (= (fld res next) (fld self next)))))))
(func grammars.channels.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func grammars.channelsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func grammars.channelsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func grammars.channelsBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func grammars.compose.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func grammars.compose.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func grammars.composeBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res list)) (= (len (fld res list)) 0))))
(func grammars.composeBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func grammars.composeBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func grammars.composeBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (>= (len (old (fld self list))) 1)))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res list) (old (fld self list))))))))
(func grammars.composeElement.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func grammars.composeElement.Occurences (results res) (inline)
  (behavior get (ensures (= res (fld self occurences)))))
(func grammars.composeElementBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res value)) (= (fld res occurences) 0))))
(func grammars.composeElementBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func grammars.composeElementBuilder.WithOccurences (params occurences) (results res) (inline) (nullable occurences) (modifies (fld self occurences))
  (behavior set (ensures (= res self) (= (fld self occurences) occurences))))
(func grammars.composeElementBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self value))) (> (fld self occurences) 0)))
      (=> (ok err) (and (not (isnil res))
        (= (fld res value) (fld self value))
        (= (fld res occurences) (fld self occurences)))))))
(func grammars.container.IsElement (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self element)))))))
(func grammars.container.Element (results res) (inline)
  (behavior get (ensures (= res (fld self element)))))
(func grammars.container.IsCompose (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self compose)))))))
(func grammars.container.Compose (results res) (inline)
  (behavior get (ensures (= res (fld self compose)))))
(func grammars.containerBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res element)) (isnil (fld res compose)))))
(func grammars.containerBuilder.WithElement (params element) (results res) (inline) (nullable element) (modifies (fld self element))
  (behavior set (ensures (= res self) (= (fld self element) element))))
(func grammars.containerBuilder.WithCompose (params compose) (results res) (inline) (nullable compose) (modifies (fld self compose))
  (behavior set (ensures (= res self) (= (fld self compose) compose))))
(func grammars.containerBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self element))) (not (isnil (fld self compose)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res element) (fld self element))
        (if (or (not (isnil (fld self element)))) (isnil (fld res compose)) (= (fld res compose) (fld self compose))))))))
(func grammars.element.Content (results res) (inline)
  (behavior get (ensures (= res (fld self content)))))
(func grammars.element.Cardinality (results res) (inline)
  (behavior get (ensures (= res (fld self cardinality)))))
(func grammars.elementBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res cardinality)) (isnil (fld res value)) (isnil (fld res external)) (isnil (fld res instance)) (= (fld res recursive) ""))))
(func grammars.elementBuilder.WithCardinality (params cardinality) (results res) (inline) (nullable cardinality) (modifies (fld self cardinality))
  (behavior set (ensures (= res self) (= (fld self cardinality) cardinality))))
(func grammars.elementBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func grammars.elementBuilder.WithExternal (params external) (results res) (inline) (nullable external) (modifies (fld self external))
  (behavior set (ensures (= res self) (= (fld self external) external))))
(func grammars.elementBuilder.WithInstance (params instance) (results res) (inline) (nullable instance) (modifies (fld self instance))
  (behavior set (ensures (= res self) (= (fld self instance) instance))))
(func grammars.elementBuilder.WithRecursive (params recursive) (results res) (inline) (nullable recursive) (modifies (fld self recursive))
  (behavior set (ensures (= res self) (= (fld self recursive) recursive))))
(func grammars.elementContent.IsValue (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self value)))))))
(func grammars.elementContent.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func grammars.elementContent.IsExternal (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self external)))))))
(func grammars.elementContent.External (results res) (inline)
  (behavior get (ensures (= res (fld self external)))))
(func grammars.elementContent.IsInstance (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self instance)))))))
(func grammars.elementContent.Instance (results res) (inline)
  (behavior get (ensures (= res (fld self instance)))))
(func grammars.elementContent.IsRecursive (results res) (inline)
  (behavior get (ensures (= res (not (= (fld self recursive) ""))))))
(func grammars.elementContent.Recursive (results res) (inline)
  (behavior get (ensures (= res (fld self recursive)))))
(func grammars.everything.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func grammars.everything.Exception (results res) (inline)
  (behavior get (ensures (= res (fld self exception)))))
(func grammars.everything.HasEscape (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self escape)))))))
(func grammars.everything.Escape (results res) (inline)
  (behavior get (ensures (= res (fld self escape)))))
(func grammars.everythingBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res exception)) (isnil (fld res escape)))))
(func grammars.everythingBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func grammars.everythingBuilder.WithException (params exception) (results res) (inline) (nullable exception) (modifies (fld self exception))
  (behavior set (ensures (= res self) (= (fld self exception) exception))))
(func grammars.everythingBuilder.WithEscape (params escape) (results res) (inline) (nullable escape) (modifies (fld self escape))
  (behavior set (ensures (= res self) (= (fld self escape) escape))))
(func grammars.everythingBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self exception))) (not (= (fld self name) ""))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res exception) (fld self exception))
        (= (fld res escape) (fld self escape)))))))
(func grammars.external.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func grammars.external.Grammar (results res) (inline)
  (behavior get (ensures (= res (fld self grammar)))))
(func grammars.externalBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res grammar)))))
(func grammars.externalBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func grammars.externalBuilder.WithGrammar (params grammar) (results res) (inline) (nullable grammar) (modifies (fld self grammar))
  (behavior set (ensures (= res self) (= (fld self grammar) grammar))))
(func grammars.externalBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (not (isnil (fld self grammar)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res grammar) (fld self grammar)))))))
(func grammars.grammar.Root (results res) (inline)
  (behavior get (ensures (= res (fld self root)))))
(func grammars.grammar.HasChannels (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self channels)))))))
(func grammars.grammar.Channels (results res) (inline)
  (behavior get (ensures (= res (fld self channels)))))
(func grammars.instance.IsToken (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self token)))))))
(func grammars.instance.Token (results res) (inline)
  (behavior get (ensures (= res (fld self token)))))
(func grammars.instance.IsEverything (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self everything)))))))
(func grammars.instance.Everything (results res) (inline)
  (behavior get (ensures (= res (fld self everything)))))
(func grammars.instanceBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res token)) (isnil (fld res everything)))))
(func grammars.instanceBuilder.WithToken (params token) (results res) (inline) (nullable token) (modifies (fld self token))
  (behavior set (ensures (= res self) (= (fld self token) token))))
(func grammars.instanceBuilder.WithEverything (params everything) (results res) (inline) (nullable everything) (modifies (fld self everything))
  (behavior set (ensures (= res self) (= (fld self everything) everything))))
(func grammars.instanceBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self token))) (not (isnil (fld self everything)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res token) (fld self token))
        (if (or (not (isnil (fld self token)))) (isnil (fld res everything)) (= (fld res everything) (fld self everything))))))))
(func grammars.line.Containers (results res) (inline)
  (behavior get (ensures (= res (fld self containers)))))
(func grammars.lineBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res containers)) (= (len (fld res containers)) 0))))
(func grammars.lineBuilder.WithContainers (params containers) (results res) (inline) (nullable containers) (modifies (fld self containers))
  (behavior set (ensures (= res self) (= (fld self containers) containers))))
(func grammars.lineBuilder.Now (results res err) (inline) (modifies (fld self containers))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self containers))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res containers) (old (fld self containers))))))))
(func grammars.suite.IsValid (results res) (inline)
  (behavior get (ensures (= res (fld self isValid)))))
(func grammars.suite.Content (results res) (inline)
  (behavior get (ensures (= res (fld self content)))))
(func grammars.suiteBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res valid)) (isnil (fld res invalid)))))
(func grammars.suiteBuilder.WithValid (params valid) (results res) (inline) (nullable valid) (modifies (fld self valid))
  (behavior set (ensures (= res self) (= (fld self valid) valid))))
(func grammars.suiteBuilder.WithInvalid (params invalid) (results res) (inline) (nullable invalid) (modifies (fld self invalid))
  (behavior set (ensures (= res self) (= (fld self invalid) invalid))))
(func grammars.suites.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func grammars.suitesBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func grammars.suitesBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func grammars.suitesBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func grammars.token.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func grammars.token.Block (results res) (inline)
  (behavior get (ensures (= res (fld self block)))))
(func grammars.token.HasSuites (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self suites)))))))
(func grammars.token.Suites (results res) (inline)
  (behavior get (ensures (= res (fld self suites)))))
(func grammars.tokenBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res block)) (isnil (fld res suites)))))
(func grammars.tokenBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func grammars.tokenBuilder.WithBlock (params block) (results res) (inline) (nullable block) (modifies (fld self block))
  (behavior set (ensures (= res self) (= (fld self block) block))))
(func grammars.tokenBuilder.WithSuites (params suites) (results res) (inline) (nullable suites) (modifies (fld self suites))
  (behavior set (ensures (= res self) (= (fld self suites) suites))))
(func grammars.tokenBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (not (isnil (fld self block)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res block) (fld self block))
        (= (fld res suites) (fld self suites)))))))
(func grammars.tokens.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func grammars.tokensBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func grammars.tokensBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func grammars.tokensBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func coverages.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func coverages.builder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func coverages.builder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func coverages.coverage.Token (results res) (inline)
  (behavior get (ensures (= res (fld self token)))))
(func coverages.coverage.Executions (results res) (inline)
  (behavior get (ensures (= res (fld self executions)))))
(func coverages.coverageBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res token)) (isnil (fld res executions)))))
(func coverages.coverageBuilder.WithToken (params token) (results res) (inline) (nullable token) (modifies (fld self token))
  (behavior set (ensures (= res self) (= (fld self token) token))))
(func coverages.coverageBuilder.WithExecutions (params executions) (results res) (inline) (nullable executions) (modifies (fld self executions))
  (behavior set (ensures (= res self) (= (fld self executions) executions))))
(func coverages.coverageBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self token))) (not (isnil (fld self executions)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res token) (fld self token))
        (= (fld res executions) (fld self executions)))))))
(func coverages.coverages.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func coverages.execution.Expectation (results res) (inline)
  (behavior get (ensures (= res (fld self expectation)))))
(func coverages.execution.Result (results res) (inline)
  (behavior get (ensures (= res (fld self result)))))
(func coverages.executionBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res expectation)) (isnil (fld res result)))))
(func coverages.executionBuilder.WithExpectation (params expectation) (results res) (inline) (nullable expectation) (modifies (fld self expectation))
  (behavior set (ensures (= res self) (= (fld self expectation) expectation))))
(func coverages.executionBuilder.WithResult (params result) (results res) (inline) (nullable result) (modifies (fld self result))
  (behavior set (ensures (= res self) (= (fld self result) result))))
(func coverages.executionBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self expectation))) (not (isnil (fld self result)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res expectation) (fld self expectation))
        (= (fld res result) (fld self result)))))))
(func coverages.executions.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func coverages.executionsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func coverages.executionsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func coverages.executionsBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func coverages.result.IsTree (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self tree)))))))
(func coverages.result.Tree (results res) (inline)
  (behavior get (ensures (= res (fld self tree)))))
(func coverages.result.IsError (results res) (inline)
  (behavior get (ensures (= res (not (= (fld self err) ""))))))
(func coverages.result.Error (results res) (inline)
  (behavior get (ensures (= res (fld self err)))))
(func coverages.resultBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res tree)) (= (fld res error) ""))))
(func coverages.resultBuilder.WithTree (params tree) (results res) (inline) (nullable tree) (modifies (fld self tree))
  (behavior set (ensures (= res self) (= (fld self tree) tree))))
(func coverages.resultBuilder.WithError (params error) (results res) (inline) (nullable error) (modifies (fld self error))
  (behavior set (ensures (= res self) (= (fld self error) error))))
(func trees.block.Lines (results res) (inline)
  (behavior get (ensures (= res (fld self lines)))))
(func trees.block.HasSuccessful (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self successful)))))))
(func trees.block.Successful (results res) (inline)
  (behavior get (ensures (= res (fld self successful)))))
(func trees.blockBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res lines)) (= (len (fld res lines)) 0))))
(func trees.blockBuilder.WithLines (params lines) (results res) (inline) (nullable lines) (modifies (fld self lines))
  (behavior set (ensures (= res self) (= (fld self lines) lines))))
(func trees.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func trees.builder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func trees.builder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func trees.content.IsValue (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self value)))))))
(func trees.content.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func trees.content.IsTree (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self tree)))))))
(func trees.content.Tree (results res) (inline)
  (behavior get (ensures (= res (fld self tree)))))
(func trees.contentBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res value)) (isnil (fld res tree)))))
(func trees.contentBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func trees.contentBuilder.WithTree (params tree) (results res) (inline) (nullable tree) (modifies (fld self tree))
  (behavior set (ensures (= res self) (= (fld self tree) tree))))
(func trees.contentBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self value))) (not (isnil (fld self tree)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res value) (fld self value))
        (if (or (not (isnil (fld self value)))) (isnil (fld res tree)) (= (fld res tree) (fld self tree))))))))
(func trees.contents.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func trees.contentsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func trees.contentsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func trees.contentsBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func trees.element.Contents (results res) (inline)
  (behavior get (ensures (= res (fld self contents)))))
(func trees.element.Grammar (results res) (inline)
  (behavior get (ensures (= res (fld self grammar)))))
(func trees.element.HasGrammar (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self grammar)))))))
(func trees.elementBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res grammar)) (isnil (fld res contents)))))
(func trees.elementBuilder.WithGrammar (params grammar) (results res) (inline) (nullable grammar) (modifies (fld self grammar))
  (behavior set (ensures (= res self) (= (fld self grammar) grammar))))
(func trees.elementBuilder.WithContents (params contents) (results res) (inline) (nullable contents) (modifies (fld self contents))
  (behavior set (ensures (= res self) (= (fld self contents) contents))))
(func trees.elementBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self contents))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res grammar) (fld self grammar))
        (= (fld res contents) (fld self contents)))))))
(func trees.elements.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func trees.elementsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func trees.elementsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func trees.line.Index (results res) (inline)
  (behavior get (ensures (= res (fld self index)))))
(func trees.line.IsReverse (results res) (inline)
  (behavior get (ensures (= res (fld self isReverse)))))
(func trees.line.Grammar (results res) (inline)
  (behavior get (ensures (= res (fld self grammar)))))
(func trees.line.HasElements (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self elements)))))))
(func trees.line.Elements (results res) (inline)
  (behavior get (ensures (= res (fld self elements)))))
(func trees.lineBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pIndex)) (isnil (fld res grammar)) (not (fld res isReverse)) (isnil (fld res elements)))))
(func trees.lineBuilder.WithIndex (params index) (results res) (inline) (nullable index) (modifies (fld self pIndex))
  (behavior set (ensures (= res self) (not (isnil (fld self pIndex))) (= (deref (fld self pIndex)) index))))
(func trees.lineBuilder.WithGrammar (params grammar) (results res) (inline) (nullable grammar) (modifies (fld self grammar))
  (behavior set (ensures (= res self) (= (fld self grammar) grammar))))
(func trees.lineBuilder.WithElements (params elements) (results res) (inline) (nullable elements) (modifies (fld self elements))
  (behavior set (ensures (= res self) (= (fld self elements) elements))))
(func trees.lineBuilder.IsReverse (results res) (inline) (modifies (fld self isReverse))
  (behavior set (ensures (= res self) (fld self isReverse))))
(func trees.lineBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pIndex))) (not (isnil (fld self grammar)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res index) (deref (fld self pIndex)))
        (= (fld res grammar) (fld self grammar))
        (= (fld res isReverse) (fld self isReverse))
        (= (fld res elements) (fld self elements)))))))
(func trees.tree.Grammar (results res) (inline)
  (behavior get (ensures (= res (fld self grammar)))))
(func trees.tree.Block (results res) (inline)
  (behavior get (ensures (= res (fld self block)))))
(func trees.tree.HasSuffix (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self suffix)))))))
(func trees.tree.Suffix (results res) (inline)
  (behavior get (ensures (= res (fld self suffix)))))
(func trees.tree.HasRemaining (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self remaining)))))))
(func trees.tree.Remaining (results res) (inline)
  (behavior get (ensures (= res (fld self remaining)))))
(func trees.treeBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res grammar)) (isnil (fld res block)) (isnil (fld res suffix)) (isnil (fld res remaining)) (= (len (fld res remaining)) 0))))
(func trees.treeBuilder.WithGrammar (params grammar) (results res) (inline) (nullable grammar) (modifies (fld self grammar))
  (behavior set (ensures (= res self) (= (fld self grammar) grammar))))
(func trees.treeBuilder.WithBlock (params block) (results res) (inline) (nullable block) (modifies (fld self block))
  (behavior set (ensures (= res self) (= (fld self block) block))))
(func trees.treeBuilder.WithSuffix (params suffix) (results res) (inline) (nullable suffix) (modifies (fld self suffix))
  (behavior set (ensures (= res self) (= (fld self suffix) suffix))))
(func trees.treeBuilder.WithRemaining (params remaining) (results res) (inline) (nullable remaining) (modifies (fld self remaining))
  (behavior set (ensures (= res self) (= (fld self remaining) remaining))))
(func trees.treeBuilder.Now (results res err) (inline) (modifies (fld self remaining))
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self grammar))) (not (isnil (fld self block)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res grammar) (fld self grammar))
        (= (fld res block) (fld self block))
        (= (fld res suffix) (fld self suffix))
        (= (fld res remaining) (old (fld self remaining))))))))
(func trees.trees.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func trees.value.Content (results res) (inline)
  (behavior get (ensures (= res (fld self content)))))
(func trees.value.HasPrefix (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self prefix)))))))
(func trees.value.Prefix (results res) (inline)
  (behavior get (ensures (= res (fld self prefix)))))
(func trees.valueBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pContent)) (isnil (fld res prefix)))))
(func trees.valueBuilder.WithContent (params content) (results res) (inline) (nullable content) (modifies (fld self pContent))
  (behavior set (ensures (= res self) (not (isnil (fld self pContent))) (= (deref (fld self pContent)) content))))
(func trees.valueBuilder.WithPrefix (params prefix) (results res) (inline) (nullable prefix) (modifies (fld self prefix))
  (behavior set (ensures (= res self) (= (fld self prefix) prefix))))
(func trees.valueBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self pContent))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res content) (deref (fld self pContent)))
        (= (fld res prefix) (fld self prefix)))))))
(func hashtrees.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res blocks)) (= (len (fld res blocks)) 0) (isnil (fld res pHead)) (isnil (fld res parent)))))
(func hashtrees.builder.WithBlocks (params blocks) (results res) (inline) (nullable blocks) (modifies (fld self blocks))
  (behavior set (ensures (= res self) (= (fld self blocks) blocks))))
(func hashtrees.builder.WithHead (params head) (results res) (inline) (nullable head) (modifies (fld self pHead))
  (behavior set (ensures (= res self) (not (isnil (fld self pHead))) (= (deref (fld self pHead)) head))))
(func hashtrees.builder.WithParent (params parent) (results res) (inline) (nullable parent) (modifies (fld self parent))
  (behavior set (ensures (= res self) (= (fld self parent) parent))))
(func hashtrees.compact.Head (results res) (inline)
  (behavior get (ensures (= res (fld self head)))))
(func hashtrees.compact.Leaves (results res) (inline)
  (behavior get (ensures (= res (fld self leaves)))))
(func hashtrees.compactBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pHead)) (isnil (fld res leaves)))))
(func hashtrees.compactBuilder.WithHead (params head) (results res) (inline) (nullable head) (modifies (fld self pHead))
  (behavior set (ensures (= res self) (not (isnil (fld self pHead))) (= (deref (fld self pHead)) head))))
(func hashtrees.compactBuilder.WithLeaves (params leaves) (results res) (inline) (nullable leaves) (modifies (fld self leaves))
  (behavior set (ensures (= res self) (= (fld self leaves) leaves))))
(func hashtrees.compactBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pHead))) (not (isnil (fld self leaves)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res head) (deref (fld self pHead)))
        (= (fld res leaves) (fld self leaves)))))))
(func hashtrees.hashtree.Head (results res) (inline)
  (behavior get (ensures (= res (fld self head)))))
(func hashtrees.hashtree.Parent (results res) (inline)
  (behavior get (ensures (= res (fld self parent)))))
(func hashtrees.leaf.Head (results res) (inline)
  (behavior get (ensures (= res (fld self head)))))
(func hashtrees.leaf.HasParent (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self parent)))))))
(func hashtrees.leaf.Parent (results res) (inline)
  (behavior get (ensures (= res (fld self parent)))))
(func hashtrees.leafBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pHead)) (isnil (fld res parent)))))
(func hashtrees.leafBuilder.WithHead (params head) (results res) (inline) (nullable head) (modifies (fld self pHead))
  (behavior set (ensures (= res self) (not (isnil (fld self pHead))) (= (deref (fld self pHead)) head))))
(func hashtrees.leafBuilder.WithParent (params parent) (results res) (inline) (nullable parent) (modifies (fld self parent))
  (behavior set (ensures (= res self) (= (fld self parent) parent))))
(func hashtrees.leafBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self pHead))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res head) (deref (fld self pHead)))
        (= (fld res parent) (fld self parent)))))))
(func hashtrees.leavesBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func hashtrees.leavesBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func hashtrees.leavesBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func hashtrees.parentLeaf.Left (results res) (inline)
  (behavior get (ensures (= res (fld self left)))))
(func hashtrees.parentLeaf.Right (results res) (inline)
  (behavior get (ensures (= res (fld self right)))))
(func hashtrees.parentLeafBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res left)) (isnil (fld res right)))))
(func hashtrees.parentLeafBuilder.WithLeft (params left) (results res) (inline) (nullable left) (modifies (fld self left))
  (behavior set (ensures (= res self) (= (fld self left) left))))
(func hashtrees.parentLeafBuilder.WithRight (params right) (results res) (inline) (nullable right) (modifies (fld self right))
  (behavior set (ensures (= res self) (= (fld self right) right))))
(func hashtrees.parentLeafBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self left))) (not (isnil (fld self right)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res left) (fld self left))
        (= (fld res right) (fld self right)))))))
(func contents.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func contents.builder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func contents.builder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func contents.content.Hash (results res) (inline)
  (behavior get (ensures (= res (fld self hash)))))
(func contents.content.Data (results res) (inline)
  (behavior get (ensures (= res (fld self data)))))
(func contents.content.Kind (results res) (inline)
  (behavior get (ensures (= res (fld self kind)))))
(func contents.contentBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pHash)) (isnil (fld res data)) (= (len (fld res data)) 0) (isnil (fld res pKind)))))
(func contents.contentBuilder.WithHash (params hash) (results res) (inline) (nullable hash) (modifies (fld self pHash))
  (behavior set (ensures (= res self) (not (isnil (fld self pHash))) (= (deref (fld self pHash)) hash))))
(func contents.contentBuilder.WithData (params data) (results res) (inline) (nullable data) (modifies (fld self data))
  (behavior set (ensures (= res self) (= (fld self data) data))))
(func contents.contentBuilder.WithKind (params kind) (results res) (inline) (nullable kind) (modifies (fld self pKind))
  (behavior set (ensures (= res self) (not (isnil (fld self pKind))) (= (deref (fld self pKind)) kind))))
(func contents.contentBuilder.Now (results res err) (inline) (modifies (fld self data))
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pHash))) (not (isnil (fld self pKind))) (>= (len (old (fld self data))) 1)))
      (=> (ok err) (and (not (isnil res))
        (= (fld res hash) (deref (fld self pHash)))
        (= (fld res data) (old (fld self data)))
        (= (fld res kind) (deref (fld self pKind))))))))
(func contents.contents.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func references.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res contentKeys)) (isnil (fld res commits)))))
(func references.builder.WithContentKeys (params contentKeys) (results res) (inline) (nullable contentKeys) (modifies (fld self contentKeys))
  (behavior set (ensures (= res self) (= (fld self contentKeys) contentKeys))))
(func references.builder.WithCommits (params commits) (results res) (inline) (nullable commits) (modifies (fld self commits))
  (behavior set (ensures (= res self) (= (fld self commits) commits))))
(func references.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self contentKeys))) (not (isnil (fld self commits)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res contentKeys) (fld self contentKeys))
        (= (fld res commits) (fld self commits)))))))
(func references.commit.Hash (results res) (inline)
  (behavior get (ensures (= res (fld self hash)))))
(func references.commit.Values (results res) (inline)
  (behavior get (ensures (= res (fld self values)))))
(func references.commit.CreatedOn (results res) (inline)
  (behavior get (ensures (= res (fld self createdOn)))))
(func references.commit.HasParent (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self pParent)))))))
(func references.commit.Parent (results res) (inline)
  (behavior get (ensures (= res (fld self pParent)))))
(func references.commit.HasMine (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self mine)))))))
(func references.commit.Mine (results res) (inline)
  (behavior get (ensures (= res (fld self mine)))))
(func references.commitBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res values)) (isnil (fld res pParent)) (isnil (fld res pProof)) (isnil (fld res pCreatedOn)))))
(func references.commitBuilder.WithValues (params values) (results res) (inline) (nullable values) (modifies (fld self values))
  (behavior set (ensures (= res self) (= (fld self values) values))))
(func references.commitBuilder.WithParent (params parent) (results res) (inline) (nullable parent) (modifies (fld self pParent))
  (behavior set (ensures (= res self) (not (isnil (fld self pParent))) (= (deref (fld self pParent)) parent))))
(func references.commitBuilder.WithProof (params proof) (results res) (inline) (nullable proof) (modifies (fld self pProof))
  (behavior set (ensures (= res self) (= (fld self pProof) proof))))
(func references.commitBuilder.CreatedOn (params createdOn) (results res) (inline) (nullable createdOn) (modifies (fld self pCreatedOn))
  (behavior set (ensures (= res self) (not (isnil (fld self pCreatedOn))) (= (deref (fld self pCreatedOn)) createdOn))))
(func references.commits.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func references.commitsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func references.commitsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func references.contentKey.Hash (results res) (inline)
  (behavior get (ensures (= res (fld self hash)))))
(func references.contentKey.Kind (results res) (inline)
  (behavior get (ensures (= res (fld self kind)))))
(func references.contentKey.Content (results res) (inline)
  (behavior get (ensures (= res (fld self content)))))
(func references.contentKey.Commit (results res) (inline)
  (behavior get (ensures (= res (fld self commit)))))
(func references.contentKeyBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pHash)) (isnil (fld res pKind)) (isnil (fld res content)) (isnil (fld res pCommit)))))
(func references.contentKeyBuilder.WithHash (params hash) (results res) (inline) (nullable hash) (modifies (fld self pHash))
  (behavior set (ensures (= res self) (not (isnil (fld self pHash))) (= (deref (fld self pHash)) hash))))
(func references.contentKeyBuilder.WithKind (params kind) (results res) (inline) (nullable kind) (modifies (fld self pKind))
  (behavior set (ensures (= res self) (not (isnil (fld self pKind))) (= (deref (fld self pKind)) kind))))
(func references.contentKeyBuilder.WithContent (params content) (results res) (inline) (nullable content) (modifies (fld self content))
  (behavior set (ensures (= res self) (= (fld self content) content))))
(func references.contentKeyBuilder.WithCommit (params commit) (results res) (inline) (nullable commit) (modifies (fld self pCommit))
  (behavior set (ensures (= res self) (not (isnil (fld self pCommit))) (= (deref (fld self pCommit)) commit))))
(func references.contentKeyBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pHash))) (not (isnil (fld self pKind))) (not (isnil (fld self content))) (not (isnil (fld self pCommit)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res hash) (deref (fld self pHash)))
        (= (fld res kind) (deref (fld self pKind)))
        (= (fld res content) (fld self content))
        (= (fld res commit) (deref (fld self pCommit))))))))
(func references.contentKeys.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func references.contentContentKeysBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func references.contentContentKeysBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func references.mine.Result (results res) (inline)
  (behavior get (ensures (= res (fld self result)))))
(func references.mine.Proof (results res) (inline)
  (behavior get (ensures (= res (fld self pProof)))))
(func references.mine.Score (results res) (inline)
  (behavior get (ensures (= res (fld self score)))))
(func references.pointer.From (results res) (inline)
  (behavior get (ensures (= res (fld self from)))))
(func references.pointer.Length (results res) (inline)
  (behavior get (ensures (= res (fld self length)))))
(func references.pointerBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pFrom)) (= (fld res length) 0))))
(func references.pointerBuilder.WithLength (params length) (results res) (inline) (nullable length) (modifies (fld self length))
  (behavior set (ensures (= res self) (= (fld self length) length))))
(func references.pointerBuilder.From (params from) (results res) (inline) (nullable from) (modifies (fld self pFrom))
  (behavior set (ensures (= res self) (not (isnil (fld self pFrom))) (= (deref (fld self pFrom)) from))))
(func references.pointerBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pFrom))) (> (fld self length) 0)))
      (=> (ok err) (and (not (isnil res))
        (= (fld res from) (deref (fld self pFrom)))
        (= (fld res length) (fld self length)))))))
(func references.reference.ContentKeys (results res) (inline)
  (behavior get (ensures (= res (fld self contentKeys)))))
(func references.reference.Commits (results res) (inline)
  (behavior get (ensures (= res (fld self commits)))))
(pkg instructions libs/interpreters/domain/instructions)
(func instructions.assignment.Variable (results res) (inline)
  (behavior get (ensures (= res (fld self variable)))))
(func instructions.assignment.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func instructions.assignmentBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res variable)) (= (len (fld res variable)) 0) (isnil (fld res value)))))
(func instructions.assignmentBuilder.WithVariable (params variable) (results res) (inline) (nullable variable) (modifies (fld self variable))
  (behavior set (ensures (= res self) (= (fld self variable) variable))))
(func instructions.assignmentBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func instructions.assignmentBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self variable))) (not (isnil (fld self value)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res variable) (fld self variable))
        (= (fld res value) (fld self value)))))))
(func instructions.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func instructions.builder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func instructions.builder.WithRemaining (params remaining) (results res) (inline) (nullable remaining) (modifies (fld self remaining))
  (behavior set (ensures (= res self) (= (fld self remaining) remaining))))
(func instructions.builder.Now (results res err) (inline) (modifies (fld self list)) (modifies (fld self remaining))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list)))
        (= (fld res remaining) (old (fld self remaining))))))))
(func instructions.instruction.IsModule (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self module)))))))
(func instructions.instruction.Module (results res) (inline)
  (behavior get (ensures (= res (fld self module)))))
(func instructions.instruction.IsApplication (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self application)))))))
(func instructions.instruction.Application (results res) (inline)
  (behavior get (ensures (= res (fld self application)))))
(func instructions.instruction.IsParameter (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self parameter)))))))
(func instructions.instruction.Parameter (results res) (inline)
  (behavior get (ensures (= res (fld self parameter)))))
(func instructions.instruction.IsAssignment (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self assignment)))))))
(func instructions.instruction.Assignment (results res) (inline)
  (behavior get (ensures (= res (fld self assignment)))))
(func instructions.instruction.IsAttachment (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self attachment)))))))
(func instructions.instruction.Attachment (results res) (inline)
  (behavior get (ensures (= res (fld self attachment)))))
(func instructions.instruction.IsExecution (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self execution)))))))
(func instructions.instruction.Execution (results res) (inline)
  (behavior get (ensures (= res (fld self execution)))))
(func instructions.instructionBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res module)) (isnil (fld res application)) (isnil (fld res parameter)) (isnil (fld res assignment)) (isnil (fld res attachment)) (isnil (fld res execution)) (= (len (fld res execution)) 0))))
(func instructions.instructionBuilder.WithModule (params module) (results res) (inline) (nullable module) (modifies (fld self module))
  (behavior set (ensures (= res self) (= (fld self module) module))))
(func instructions.instructionBuilder.WithApplication (params application) (results res) (inline) (nullable application) (modifies (fld self application))
  (behavior set (ensures (= res self) (= (fld self application) application))))
(func instructions.instructionBuilder.WithParameter (params parameter) (results res) (inline) (nullable parameter) (modifies (fld self parameter))
  (behavior set (ensures (= res self) (= (fld self parameter) parameter))))
(func instructions.instructionBuilder.WithAssignment (params assignment) (results res) (inline) (nullable assignment) (modifies (fld self assignment))
  (behavior set (ensures (= res self) (= (fld self assignment) assignment))))
(func instructions.instructionBuilder.WithAttachment (params attachment) (results res) (inline) (nullable attachment) (modifies (fld self attachment))
  (behavior set (ensures (= res self) (= (fld self attachment) attachment))))
(func instructions.instructionBuilder.WithExecution (params execution) (results res) (inline) (nullable execution) (modifies (fld self execution))
  (behavior set (ensures (= res self) (= (fld self execution) execution))))
(func instructions.instructionBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self module))) (not (isnil (fld self application))) (not (isnil (fld self parameter))) (not (isnil (fld self assignment))) (not (isnil (fld self attachment))) (not (isnil (fld self execution)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res module) (fld self module))
        (if (or (not (isnil (fld self module)))) (isnil (fld res application)) (= (fld res application) (fld self application)))
        (if (or (not (isnil (fld self module))) (not (isnil (fld self application)))) (isnil (fld res parameter)) (= (fld res parameter) (fld self parameter)))
        (if (or (not (isnil (fld self module))) (not (isnil (fld self application))) (not (isnil (fld self parameter)))) (isnil (fld res assignment)) (= (fld res assignment) (fld self assignment)))
        (if (or (not (isnil (fld self module))) (not (isnil (fld self application))) (not (isnil (fld self parameter))) (not (isnil (fld self assignment)))) (isnil (fld res attachment)) (= (fld res attachment) (fld self attachment)))
        (if (or (not (isnil (fld self module))) (not (isnil (fld self application))) (not (isnil (fld self parameter))) (not (isnil (fld self assignment))) (not (isnil (fld self attachment)))) (= (len (fld res execution)) 0) (= (fld res execution) (fld self execution))))))))
(func instructions.instructions.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func instructions.instructions.HasRemaining (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self remaining)))))))
(func instructions.instructions.Remaining (results res) (inline)
  (behavior get (ensures (= res (fld self remaining)))))
(func instructions.value.IsVariable (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self variable)))))))
(func instructions.value.Variable (results res) (inline)
  (behavior get (ensures (= res (fld self variable)))))
(func instructions.value.IsConstant (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self constant)))))))
(func instructions.value.Constant (results res) (inline)
  (behavior get (ensures (= res (fld self constant)))))
(func instructions.value.IsInstructions (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self instructions)))))))
(func instructions.value.Instructions (results res) (inline)
  (behavior get (ensures (= res (fld self instructions)))))
(func instructions.value.IsExecution (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self execution)))))))
(func instructions.value.Execution (results res) (inline)
  (behavior get (ensures (= res (fld self execution)))))
(func instructions.valueBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res variable)) (= (len (fld res variable)) 0) (isnil (fld res constant)) (= (len (fld res constant)) 0) (isnil (fld res instructions)) (isnil (fld res execution)) (= (len (fld res execution)) 0))))
(func instructions.valueBuilder.WithVariable (params variable) (results res) (inline) (nullable variable) (modifies (fld self variable))
  (behavior set (ensures (= res self) (= (fld self variable) variable))))
(func instructions.valueBuilder.WithConstant (params constant) (results res) (inline) (nullable constant) (modifies (fld self constant))
  (behavior set (ensures (= res self) (= (fld self constant) constant))))
(func instructions.valueBuilder.WithInstructions (params instructions) (results res) (inline) (nullable instructions) (modifies (fld self instructions))
  (behavior set (ensures (= res self) (= (fld self instructions) instructions))))
(func instructions.valueBuilder.WithExecution (params execution) (results res) (inline) (nullable execution) (modifies (fld self execution))
  (behavior set (ensures (= res self) (= (fld self execution) execution))))
(func instructions.valueBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self variable))) (not (isnil (fld self constant))) (not (isnil (fld self instructions))) (not (isnil (fld self execution)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res variable) (fld self variable))
        (if (or (not (isnil (fld self variable)))) (= (len (fld res constant)) 0) (= (fld res constant) (fld self constant)))
        (if (or (not (isnil (fld self variable))) (not (isnil (fld self constant)))) (isnil (fld res instructions)) (= (fld res instructions) (fld self instructions)))
        (if (or (not (isnil (fld self variable))) (not (isnil (fld self constant))) (not (isnil (fld self instructions)))) (= (len (fld res execution)) 0) (= (fld res execution) (fld self execution))))))))
(pkg iapplications libs/interpreters/domain/instructions/applications)
(func iapplications.application.Module (results res) (inline)
  (behavior get (ensures (= res (fld self module)))))
(func iapplications.application.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func iapplications.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res module)) (= (len (fld res module)) 0) (isnil (fld res name)) (= (len (fld res name)) 0))))
(func iapplications.builder.WithModule (params module) (results res) (inline) (nullable module) (modifies (fld self module))
  (behavior set (ensures (= res self) (= (fld self module) module))))
(func iapplications.builder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func iapplications.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self module))) (not (isnil (fld self name)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res module) (fld self module))
        (= (fld res name) (fld self name)))))))
(pkg iattachments libs/interpreters/domain/instructions/attachments)
(func iattachments.attachment.Variable (results res) (inline)
  (behavior get (ensures (= res (fld self variable)))))
(func iattachments.attachment.Application (results res) (inline)
  (behavior get (ensures (= res (fld self application)))))
(func iattachments.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res variable)) (isnil (fld res application)) (= (len (fld res application)) 0))))
(func iattachments.builder.WithVariable (params variable) (results res) (inline) (nullable variable) (modifies (fld self variable))
  (behavior set (ensures (= res self) (= (fld self variable) variable))))
(func iattachments.builder.WithApplication (params application) (results res) (inline) (nullable application) (modifies (fld self application))
  (behavior set (ensures (= res self) (= (fld self application) application))))
(func iattachments.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self variable))) (not (isnil (fld self application)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res variable) (fld self variable))
        (= (fld res application) (fld self application)))))))
(func iattachments.variable.Current (results res) (inline)
  (behavior get (ensures (= res (fld self current)))))
(func iattachments.variable.Target (results res) (inline)
  (behavior get (ensures (= res (fld self target)))))
(func iattachments.variableBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res current)) (= (len (fld res current)) 0) (isnil (fld res pTarget)))))
(func iattachments.variableBuilder.WithCurrent (params current) (results res) (inline) (nullable current) (modifies (fld self current))
  (behavior set (ensures (= res self) (= (fld self current) current))))
(func iattachments.variableBuilder.WithTarget (params target) (results res) (inline) (nullable target) (modifies (fld self pTarget))
  (behavior set (ensures (= res self) (not (isnil (fld self pTarget))) (= (deref (fld self pTarget)) target))))
(func iattachments.variableBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self current))) (not (isnil (fld self pTarget)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res current) (fld self current))
        (= (fld res target) (deref (fld self pTarget))))))))
(pkg imodules libs/interpreters/domain/instructions/modules)
(func imodules.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pIndex)) (isnil (fld res name)) (= (len (fld res name)) 0))))
(func imodules.builder.WithIndex (params index) (results res) (inline) (nullable index) (modifies (fld self pIndex))
  (behavior set (ensures (= res self) (not (isnil (fld self pIndex))) (= (deref (fld self pIndex)) index))))
(func imodules.builder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func imodules.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pIndex))) (not (isnil (fld self name)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res index) (deref (fld self pIndex)))
        (= (fld res name) (fld self name)))))))
(func imodules.module.Index (results res) (inline)
  (behavior get (ensures (= res (fld self index)))))
(func imodules.module.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(pkg iparameters libs/interpreters/domain/instructions/parameters)
(func iparameters.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res name)) (= (len (fld res name)) 0) (not (fld res isInput)))))
(func iparameters.builder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func iparameters.builder.IsInput (results res) (inline) (modifies (fld self isInput))
  (behavior set (ensures (= res self) (fld self isInput))))
(func iparameters.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (not (isnil (fld self name))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res isInput) (fld self isInput)))))))
(func iparameters.parameter.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func iparameters.parameter.IsInput (results res) (inline)
  (behavior get (ensures (= res (fld self isInput)))))
(pkg programs libs/interpreters/domain/programs)
(func programs.application.Index (results res) (inline)
  (behavior get (ensures (= res (fld self index)))))
(func programs.application.Module (results res) (inline)
  (behavior get (ensures (= res (fld self module)))))
(func programs.application.HasAttachments (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self attachments)))))))
(func programs.application.Attachments (results res) (inline)
  (behavior get (ensures (= res (fld self attachments)))))
(func programs.applicationBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pIndex)) (isnil (fld res module)) (isnil (fld res attachments)))))
(func programs.applicationBuilder.WithIndex (params index) (results res) (inline) (nullable index) (modifies (fld self pIndex))
  (behavior set (ensures (= res self) (not (isnil (fld self pIndex))) (= (deref (fld self pIndex)) index))))
(func programs.applicationBuilder.WithModule (params module) (results res) (inline) (nullable module) (modifies (fld self module))
  (behavior set (ensures (= res self) (= (fld self module) module))))
(func programs.applicationBuilder.WithAttachments (params attachments) (results res) (inline) (nullable attachments) (modifies (fld self attachments))
  (behavior set (ensures (= res self) (= (fld self attachments) attachments))))
(func programs.applicationBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pIndex))) (not (isnil (fld self module)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res index) (deref (fld self pIndex)))
        (= (fld res module) (fld self module))
        (= (fld res attachments) (fld self attachments)))))))
(func programs.attachment.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func programs.attachment.Local (results res) (inline)
  (behavior get (ensures (= res (fld self local)))))
(func programs.attachmentBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res value)) (isnil (fld res pLocal)))))
(func programs.attachmentBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func programs.attachmentBuilder.WithLocal (params local) (results res) (inline) (nullable local) (modifies (fld self pLocal))
  (behavior set (ensures (= res self) (not (isnil (fld self pLocal))) (= (deref (fld self pLocal)) local))))
(func programs.attachmentBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self value))) (not (isnil (fld self pLocal)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res value) (fld self value))
        (= (fld res local) (deref (fld self pLocal))))))))
(func programs.attachments.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func programs.attachmentsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func programs.attachmentsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func programs.attachmentsBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func programs.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res instructions)) (isnil (fld res outputs)) (= (len (fld res outputs)) 0))))
(func programs.builder.WithInstructions (params instructions) (results res) (inline) (nullable instructions) (modifies (fld self instructions))
  (behavior set (ensures (= res self) (= (fld self instructions) instructions))))
(func programs.builder.WithOutputs (params outputs) (results res) (inline) (nullable outputs) (modifies (fld self outputs))
  (behavior set (ensures (= res self) (= (fld self outputs) outputs))))
(func programs.builder.Now (results res err) (inline) (modifies (fld self outputs))
  (behavior build (ensures (= (ok err) (not (isnil (fld self instructions))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res instructions) (fld self instructions))
        (= (fld res outputs) (old (fld self outputs))))))))
(func programs.instruction.IsValue (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self value)))))))
(func programs.instruction.Value (results res) (inline)
  (behavior get (ensures (= res (fld self value)))))
(func programs.instruction.IsExecution (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self execution)))))))
(func programs.instruction.Execution (results res) (inline)
  (behavior get (ensures (= res (fld self execution)))))
(func programs.instructionBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res value)) (isnil (fld res execution)))))
(func programs.instructionBuilder.WithValue (params value) (results res) (inline) (nullable value) (modifies (fld self value))
  (behavior set (ensures (= res self) (= (fld self value) value))))
(func programs.instructionBuilder.WithExecution (params execution) (results res) (inline) (nullable execution) (modifies (fld self execution))
  (behavior set (ensures (= res self) (= (fld self execution) execution))))
(func programs.instructionBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self value))) (not (isnil (fld self execution)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res value) (fld self value))
        (if (or (not (isnil (fld self value)))) (isnil (fld res execution)) (= (fld res execution) (fld self execution))))))))
(func programs.instructions.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func programs.instructionsBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func programs.instructionsBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func programs.instructionsBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func programs.program.Instructions (results res) (inline)
  (behavior get (ensures (= res (fld self instructions)))))
(func programs.program.HasOutputs (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self outputs)))))))
(func programs.program.Outputs (results res) (inline)
  (behavior get (ensures (= res (fld self outputs)))))
(func programs.value.IsInput (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self pInput)))))))
(func programs.value.Input (results res) (inline)
  (behavior get (ensures (= res (fld self pInput)))))
(func programs.value.IsConstant (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self constant)))))))
(func programs.value.Constant (results res) (inline)
  (behavior get (ensures (= res (fld self constant)))))
(func programs.value.IsExecution (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self execution)))))))
(func programs.value.Execution (results res) (inline)
  (behavior get (ensures (= res (fld self execution)))))
(func programs.value.IsProgram (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self program)))))))
(func programs.value.Program (results res) (inline)
  (behavior get (ensures (= res (fld self program)))))
(func programs.valueBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pInput)) (isnil (fld res constant)) (= (len (fld res constant)) 0) (isnil (fld res execution)) (isnil (fld res program)))))
(func programs.valueBuilder.WithInput (params input) (results res) (inline) (nullable input) (modifies (fld self pInput))
  (behavior set (ensures (= res self) (not (isnil (fld self pInput))) (= (deref (fld self pInput)) input))))
(func programs.valueBuilder.WithConstant (params constant) (results res) (inline) (nullable constant) (modifies (fld self constant))
  (behavior set (ensures (= res self) (= (fld self constant) constant))))
(func programs.valueBuilder.WithExecution (params execution) (results res) (inline) (nullable execution) (modifies (fld self execution))
  (behavior set (ensures (= res self) (= (fld self execution) execution))))
(func programs.valueBuilder.WithProgram (params program) (results res) (inline) (nullable program) (modifies (fld self program))
  (behavior set (ensures (= res self) (= (fld self program) program))))
(func programs.valueBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self pInput))) (not (isnil (fld self constant))) (not (isnil (fld self execution))) (not (isnil (fld self program)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res pInput) (fld self pInput))
        (if (or (not (isnil (fld self pInput)))) (= (len (fld res constant)) 0) (= (fld res constant) (fld self constant)))
        (if (or (not (isnil (fld self pInput))) (not (isnil (fld self constant)))) (isnil (fld res execution)) (= (fld res execution) (fld self execution)))
        (if (or (not (isnil (fld self pInput))) (not (isnil (fld self constant))) (not (isnil (fld self execution)))) (isnil (fld res program)) (= (fld res program) (fld self program))))))))
(pkg pmodules libs/interpreters/domain/programs/modules)
(func pmodules.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func pmodules.builder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func pmodules.builder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func pmodules.module.Index (results res) (inline)
  (behavior get (ensures (= res (fld self index)))))
(func pmodules.module.Func (results res) (inline)
  (behavior get (ensures (= res (fld self fn)))))
(func pmodules.moduleBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res pIndex)) (isnil (fld res fn)))))
(func pmodules.moduleBuilder.WithIndex (params index) (results res) (inline) (nullable index) (modifies (fld self pIndex))
  (behavior set (ensures (= res self) (not (isnil (fld self pIndex))) (= (deref (fld self pIndex)) index))))
(func pmodules.moduleBuilder.WithFunc (params fn) (results res) (inline) (nullable fn) (modifies (fld self fn))
  (behavior set (ensures (= res self) (= (fld self fn) fn))))
(func pmodules.moduleBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self pIndex))) (not (isnil (fld self fn)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res index) (deref (fld self pIndex)))
        (= (fld res fn) (fld self fn)))))))
(func pmodules.modules.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(pkg queries libs/queries/domain/queries)
(func queries.builder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res token)) (isnil (fld res inside)) (isnil (fld res fn)))))
(func queries.builder.WithToken (params token) (results res) (inline) (nullable token) (modifies (fld self token))
  (behavior set (ensures (= res self) (= (fld self token) token))))
(func queries.builder.WithInside (params inside) (results res) (inline) (nullable inside) (modifies (fld self inside))
  (behavior set (ensures (= res self) (= (fld self inside) inside))))
(func queries.builder.WithFn (params fn) (results res) (inline) (nullable fn) (modifies (fld self fn))
  (behavior set (ensures (= res self) (= (fld self fn) fn))))
(func queries.builder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (isnil (fld self token))) (not (isnil (fld self inside))) (not (isnil (fld self fn)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res token) (fld self token))
        (= (fld res inside) (fld self inside))
        (= (fld res fn) (fld self fn)))))))
(func queries.contentFn.IsSingle (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self single)))))))
(func queries.contentFn.Single (results res) (inline)
  (behavior get (ensures (= res (fld self single)))))
(func queries.contentFn.IsMulti (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self multi)))))))
(func queries.contentFn.Multi (results res) (inline)
  (behavior get (ensures (= res (fld self multi)))))
(func queries.contentFnBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res single)) (isnil (fld res multi)))))
(func queries.contentFnBuilder.WithSingle (params single) (results res) (inline) (nullable single) (modifies (fld self single))
  (behavior set (ensures (= res self) (= (fld self single) single))))
(func queries.contentFnBuilder.WithMulti (params multi) (results res) (inline) (nullable multi) (modifies (fld self multi))
  (behavior set (ensures (= res self) (= (fld self multi) multi))))
(func queries.contentFnBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self single))) (not (isnil (fld self multi)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res single) (fld self single))
        (if (or (not (isnil (fld self single)))) (isnil (fld res multi)) (= (fld res multi) (fld self multi))))))))
(func queries.element.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func queries.element.Index (results res) (inline)
  (behavior get (ensures (= res (fld self index)))))
(func queries.elementBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (isnil (fld res pIndex)))))
(func queries.elementBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func queries.elementBuilder.WithIndex (params index) (results res) (inline) (nullable index) (modifies (fld self pIndex))
  (behavior set (ensures (= res self) (not (isnil (fld self pIndex))) (= (deref (fld self pIndex)) index))))
(func queries.elementBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (not (isnil (fld self pIndex)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res index) (deref (fld self pIndex))))))))
(func queries.fetcher.IsRecursive (results res) (inline)
  (behavior get (ensures (= res (not (= (fld self recursive) ""))))))
(func queries.fetcher.Recursive (results res) (inline)
  (behavior get (ensures (= res (fld self recursive)))))
(func queries.fetcher.IsQuery (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self query)))))))
(func queries.fetcher.Query (results res) (inline)
  (behavior get (ensures (= res (fld self query)))))
(func queries.fetcherBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res recursive) "") (isnil (fld res query)))))
(func queries.fetcherBuilder.WithRecursive (params recursive) (results res) (inline) (nullable recursive) (modifies (fld self recursive))
  (behavior set (ensures (= res self) (= (fld self recursive) recursive))))
(func queries.fetcherBuilder.WithQuery (params query) (results res) (inline) (nullable query) (modifies (fld self query))
  (behavior set (ensures (= res self) (= (fld self query) query))))
(func queries.fetcherBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (= (fld self recursive) "")) (not (isnil (fld self query)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res recursive) (fld self recursive))
        (if (or (not (= (fld self recursive) ""))) (isnil (fld res query)) (= (fld res query) (fld self query))))))))
(func queries.fetchers.List (results res) (inline)
  (behavior get (ensures (= res (fld self list)))))
(func queries.fetchersBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res list)) (= (len (fld res list)) 0))))
(func queries.fetchersBuilder.WithList (params list) (results res) (inline) (nullable list) (modifies (fld self list))
  (behavior set (ensures (= res self) (= (fld self list) list))))
(func queries.fetchersBuilder.Now (results res err) (inline) (modifies (fld self list))
  (behavior build (ensures (= (ok err) (>= (len (old (fld self list))) 1))
      (=> (ok err) (and (not (isnil res))
        (= (fld res list) (old (fld self list))))))))
(func queries.inside.IsFn (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self fn)))))))
(func queries.inside.Fn (results res) (inline)
  (behavior get (ensures (= res (fld self fn)))))
(func queries.inside.IsFetchers (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self fetchers)))))))
(func queries.inside.Fetchers (results res) (inline)
  (behavior get (ensures (= res (fld self fetchers)))))
(func queries.insideBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res fn)) (isnil (fld res fetchers)))))
(func queries.insideBuilder.WithFn (params fn) (results res) (inline) (nullable fn) (modifies (fld self fn))
  (behavior set (ensures (= res self) (= (fld self fn) fn))))
(func queries.insideBuilder.WithFetchers (params fetchers) (results res) (inline) (nullable fetchers) (modifies (fld self fetchers))
  (behavior set (ensures (= res self) (= (fld self fetchers) fetchers))))
(func queries.insideBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self fn))) (not (isnil (fld self fetchers)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res fn) (fld self fn))
        (if (or (not (isnil (fld self fn)))) (isnil (fld res fetchers)) (= (fld res fetchers) (fld self fetchers))))))))
(func queries.query.Token (results res) (inline)
  (behavior get (ensures (= res (fld self token)))))
(func queries.query.Inside (results res) (inline)
  (behavior get (ensures (= res (fld self inside)))))
(func queries.query.Fn (results res) (inline)
  (behavior get (ensures (= res (fld self fn)))))
(func queries.queryFn.IsSingle (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self single)))))))
(func queries.queryFn.Single (results res) (inline)
  (behavior get (ensures (= res (fld self single)))))
(func queries.queryFn.IsMulti (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self multi)))))))
(func queries.queryFn.Multi (results res) (inline)
  (behavior get (ensures (= res (fld self multi)))))
(func queries.queryFnBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (isnil (fld res single)) (isnil (fld res multi)))))
(func queries.queryFnBuilder.WithSingle (params single) (results res) (inline) (nullable single) (modifies (fld self single))
  (behavior set (ensures (= res self) (= (fld self single) single))))
(func queries.queryFnBuilder.WithMulti (params multi) (results res) (inline) (nullable multi) (modifies (fld self multi))
  (behavior set (ensures (= res self) (= (fld self multi) multi))))
(func queries.queryFnBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (or (not (isnil (fld self single))) (not (isnil (fld self multi)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res single) (fld self single))
        (if (or (not (isnil (fld self single)))) (isnil (fld res multi)) (= (fld res multi) (fld self multi))))))))
(func queries.token.Name (results res) (inline)
  (behavior get (ensures (= res (fld self name)))))
(func queries.token.ReverseName (results res) (inline)
  (behavior get (ensures (= res (fld self reverseName)))))
(func queries.token.Element (results res) (inline)
  (behavior get (ensures (= res (fld self element)))))
(func queries.token.HasContent (results res) (inline)
  (behavior get (ensures (= res (not (isnil (fld self pContent)))))))
(func queries.token.Content (results res) (inline)
  (behavior get (ensures (= res (fld self pContent)))))
(func queries.tokenBuilder.Create (results res) (inline) (fresh)
  (behavior create (ensures (= (fld res name) "") (= (fld res reverseName) "") (isnil (fld res element)) (isnil (fld res pContent)))))
(func queries.tokenBuilder.WithName (params name) (results res) (inline) (nullable name) (modifies (fld self name))
  (behavior set (ensures (= res self) (= (fld self name) name))))
(func queries.tokenBuilder.WithReverseName (params reverseName) (results res) (inline) (nullable reverseName) (modifies (fld self reverseName))
  (behavior set (ensures (= res self) (= (fld self reverseName) reverseName))))
(func queries.tokenBuilder.WithElement (params element) (results res) (inline) (nullable element) (modifies (fld self element))
  (behavior set (ensures (= res self) (= (fld self element) element))))
(func queries.tokenBuilder.WithContent (params content) (results res) (inline) (nullable content) (modifies (fld self pContent))
  (behavior set (ensures (= res self) (not (isnil (fld self pContent))) (= (deref (fld self pContent)) content))))
(func queries.tokenBuilder.Now (results res err) (inline)
  (behavior build (ensures (= (ok err) (and (not (= (fld self name) "")) (not (= (fld self reverseName) "")) (not (isnil (fld self element)))))
      (=> (ok err) (and (not (isnil res))
        (= (fld res name) (fld self name))
        (= (fld res reverseName) (fld self reverseName))
        (= (fld res element) (fld self element))
        (= (fld res pContent) (fld self pContent)))))))

(prop C16
  (values.builder.Create create)
  (values.builder.WithName set)
  (values.builder.WithNumber set)
  (values.builder.Now build)
  (values.value.Name get)
  (values.value.Number get)
  (cardinalities.builder.Create create)
  (cardinalities.builder.WithMin set)
  (cardinalities.builder.WithMax set)
  (cardinalities.builder.Now build)
  (cardinalities.cardinality.Min get)
  (cardinalities.cardinality.HasMax get)
  (cardinalities.cardinality.Max get)
  (grammars.block.Lines get)
  (grammars.blockBuilder.Create create)
  (grammars.blockBuilder.WithLines set)
  (grammars.blockBuilder.Now build)
  (grammars.builder.Create create)
  (grammars.builder.WithRoot set)
  (grammars.builder.WithChannels set)
  (grammars.builder.Now build)
  (grammars.channel.Token get)
  (grammars.channel.HasCondition get)
  (grammars.channel.Condition get)
  (grammars.channelBuilder.Create create)
  (grammars.channelBuilder.WithToken set)
  (grammars.channelBuilder.WithCondition set)
  (grammars.channelBuilder.Now build)
  (grammars.channelCondition.HasPrevious get)
  (grammars.channelCondition.Previous get)
  (grammars.channelCondition.HasNext get)
  (grammars.channelCondition.Next get)
  (grammars.channelConditionBuilder.Create create)
  (grammars.channelConditionBuilder.WithPrevious set)
  (grammars.channelConditionBuilder.WithNext set)
  (grammars.channelConditionBuilder.Now build)
  (grammars.channels.List get)
  (grammars.channelsBuilder.Create create)
  (grammars.channelsBuilder.WithList set)
  (grammars.channelsBuilder.Now build)
  (grammars.compose.Name get)
  (grammars.compose.List get)
  (grammars.composeBuilder.Create create)
  (grammars.composeBuilder.WithName set)
  (grammars.composeBuilder.WithList set)
  (grammars.composeBuilder.Now build)
  (grammars.composeElement.Value get)
  (grammars.composeElement.Occurences get)
  (grammars.composeElementBuilder.Create create)
  (grammars.composeElementBuilder.WithValue set)
  (grammars.composeElementBuilder.WithOccurences set)
  (grammars.composeElementBuilder.Now build)
  (grammars.container.IsElement get)
  (grammars.container.Element get)
  (grammars.container.IsCompose get)
  (grammars.container.Compose get)
  (grammars.containerBuilder.Create create)
  (grammars.containerBuilder.WithElement set)
  (grammars.containerBuilder.WithCompose set)
  (grammars.containerBuilder.Now build)
  (grammars.element.Content get)
  (grammars.element.Cardinality get)
  (grammars.elementBuilder.Create create)
  (grammars.elementBuilder.WithCardinality set)
  (grammars.elementBuilder.WithValue set)
  (grammars.elementBuilder.WithExternal set)
  (grammars.elementBuilder.WithInstance set)
  (grammars.elementBuilder.WithRecursive set)
  (grammars.elementContent.IsValue get)
  (grammars.elementContent.Value get)
  (grammars.elementContent.IsExternal get)
  (grammars.elementContent.External get)
  (grammars.elementContent.IsInstance get)
  (grammars.elementContent.Instance get)
  (grammars.elementContent.IsRecursive get)
  (grammars.elementContent.Recursive get)
  (grammars.everything.Name get)
  (grammars.everything.Exception get)
  (grammars.everything.HasEscape get)
  (grammars.everything.Escape get)
  (grammars.everythingBuilder.Create create)
  (grammars.everythingBuilder.WithName set)
  (grammars.everythingBuilder.WithException set)
  (grammars.everythingBuilder.WithEscape set)
  (grammars.everythingBuilder.Now build)
  (grammars.external.Name get)
  (grammars.external.Grammar get)
  (grammars.externalBuilder.Create create)
  (grammars.externalBuilder.WithName set)
  (grammars.externalBuilder.WithGrammar set)
  (grammars.externalBuilder.Now build)
  (grammars.grammar.Root get)
  (grammars.grammar.HasChannels get)
  (grammars.grammar.Channels get)
  (grammars.instance.IsToken get)
  (grammars.instance.Token get)
  (grammars.instance.IsEverything get)
  (grammars.instance.Everything get)
  (grammars.instanceBuilder.Create create)
  (grammars.instanceBuilder.WithToken set)
  (grammars.instanceBuilder.WithEverything set)
  (grammars.instanceBuilder.Now build)
  (grammars.line.Containers get)
  (grammars.lineBuilder.Create create)
  (grammars.lineBuilder.WithContainers set)
  (grammars.lineBuilder.Now build)
  (grammars.suite.IsValid get)
  (grammars.suite.Content get)
  (grammars.suiteBuilder.Create create)
  (grammars.suiteBuilder.WithValid set)
  (grammars.suiteBuilder.WithInvalid set)
  (grammars.suites.List get)
  (grammars.suitesBuilder.Create create)
  (grammars.suitesBuilder.WithList set)
  (grammars.suitesBuilder.Now build)
  (grammars.token.Name get)
  (grammars.token.Block get)
  (grammars.token.HasSuites get)
  (grammars.token.Suites get)
  (grammars.tokenBuilder.Create create)
  (grammars.tokenBuilder.WithName set)
  (grammars.tokenBuilder.WithBlock set)
  (grammars.tokenBuilder.WithSuites set)
  (grammars.tokenBuilder.Now build)
  (grammars.tokens.List get)
  (grammars.tokensBuilder.Create create)
  (grammars.tokensBuilder.WithList set)
  (grammars.tokensBuilder.Now build)
  (coverages.builder.Create create)
  (coverages.builder.WithList set)
  (coverages.builder.Now build)
  (coverages.coverage.Token get)
  (coverages.coverage.Executions get)
  (coverages.coverageBuilder.Create create)
  (coverages.coverageBuilder.WithToken set)
  (coverages.coverageBuilder.WithExecutions set)
  (coverages.coverageBuilder.Now build)
  (coverages.coverages.List get)
  (coverages.execution.Expectation get)
  (coverages.execution.Result get)
  (coverages.executionBuilder.Create create)
  (coverages.executionBuilder.WithExpectation set)
  (coverages.executionBuilder.WithResult set)
  (coverages.executionBuilder.Now build)
  (coverages.executions.List get)
  (coverages.executionsBuilder.Create create)
  (coverages.executionsBuilder.WithList set)
  (coverages.executionsBuilder.Now build)
  (coverages.result.IsTree get)
  (coverages.result.Tree get)
  (coverages.result.IsError get)
  (coverages.result.Error get)
  (coverages.resultBuilder.Create create)
  (coverages.resultBuilder.WithTree set)
  (coverages.resultBuilder.WithError set)
  (trees.block.Lines get)
  (trees.block.HasSuccessful get)
  (trees.block.Successful get)
  (trees.blockBuilder.Create create)
  (trees.blockBuilder.WithLines set)
  (trees.builder.Create create)
  (trees.builder.WithList set)
  (trees.builder.Now build)
  (trees.content.IsValue get)
  (trees.content.Value get)
  (trees.content.IsTree get)
  (trees.content.Tree get)
  (trees.contentBuilder.Create create)
  (trees.contentBuilder.WithValue set)
  (trees.contentBuilder.WithTree set)
  (trees.contentBuilder.Now build)
  (trees.contents.List get)
  (trees.contentsBuilder.Create create)
  (trees.contentsBuilder.WithList set)
  (trees.contentsBuilder.Now build)
  (trees.element.Contents get)
  (trees.element.Grammar get)
  (trees.element.HasGrammar get)
  (trees.elementBuilder.Create create)
  (trees.elementBuilder.WithGrammar set)
  (trees.elementBuilder.WithContents set)
  (trees.elementBuilder.Now build)
  (trees.elements.List get)
  (trees.elementsBuilder.Create create)
  (trees.elementsBuilder.WithList set)
  (trees.line.Index get)
  (trees.line.IsReverse get)
  (trees.line.Grammar get)
  (trees.line.HasElements get)
  (trees.line.Elements get)
  (trees.lineBuilder.Create create)
  (trees.lineBuilder.WithIndex set)
  (trees.lineBuilder.WithGrammar set)
  (trees.lineBuilder.WithElements set)
  (trees.lineBuilder.IsReverse set)
  (trees.lineBuilder.Now build)
  (trees.tree.Grammar get)
  (trees.tree.Block get)
  (trees.tree.HasSuffix get)
  (trees.tree.Suffix get)
  (trees.tree.HasRemaining get)
  (trees.tree.Remaining get)
  (trees.treeBuilder.Create create)
  (trees.treeBuilder.WithGrammar set)
  (trees.treeBuilder.WithBlock set)
  (trees.treeBuilder.WithSuffix set)
  (trees.treeBuilder.WithRemaining set)
  (trees.treeBuilder.Now build)
  (trees.trees.List get)
  (trees.value.Content get)
  (trees.value.HasPrefix get)
  (trees.value.Prefix get)
  (trees.valueBuilder.Create create)
  (trees.valueBuilder.WithContent set)
  (trees.valueBuilder.WithPrefix set)
  (trees.valueBuilder.Now build)
  (grammars.elementBuilder.Now build)
  (grammars.suiteBuilder.Now build)
  (coverages.resultBuilder.Now build)
  (trees.elementsBuilder.Now build)
  (trees.blockBuilder.Now build))
(prop C27
  (hashtrees.builder.Create create)
  (hashtrees.builder.WithBlocks set)
  (hashtrees.builder.WithHead set)
  (hashtrees.builder.WithParent set)
  (hashtrees.compact.Head get)
  (hashtrees.compact.Leaves get)
  (hashtrees.compactBuilder.Create create)
  (hashtrees.compactBuilder.WithHead set)
  (hashtrees.compactBuilder.WithLeaves set)
  (hashtrees.compactBuilder.Now build)
  (hashtrees.hashtree.Head get)
  (hashtrees.hashtree.Parent get)
  (hashtrees.leaf.Head get)
  (hashtrees.leaf.HasParent get)
  (hashtrees.leaf.Parent get)
  (hashtrees.leafBuilder.Create create)
  (hashtrees.leafBuilder.WithHead set)
  (hashtrees.leafBuilder.WithParent set)
  (hashtrees.leafBuilder.Now build)
  (hashtrees.leavesBuilder.Create create)
  (hashtrees.leavesBuilder.WithList set)
  (hashtrees.leavesBuilder.Now build)
  (hashtrees.parentLeaf.Left get)
  (hashtrees.parentLeaf.Right get)
  (hashtrees.parentLeafBuilder.Create create)
  (hashtrees.parentLeafBuilder.WithLeft set)
  (hashtrees.parentLeafBuilder.WithRight set)
  (hashtrees.parentLeafBuilder.Now build)
  (contents.builder.Create create)
  (contents.builder.WithList set)
  (contents.builder.Now build)
  (contents.content.Hash get)
  (contents.content.Data get)
  (contents.content.Kind get)
  (contents.contentBuilder.Create create)
  (contents.contentBuilder.WithHash set)
  (contents.contentBuilder.WithData set)
  (contents.contentBuilder.WithKind set)
  (contents.contentBuilder.Now build)
  (contents.contents.List get)
  (references.builder.Create create)
  (references.builder.WithContentKeys set)
  (references.builder.WithCommits set)
  (references.builder.Now build)
  (references.commit.Hash get)
  (references.commit.Values get)
  (references.commit.CreatedOn get)
  (references.commit.HasParent get)
  (references.commit.Parent get)
  (references.commit.HasMine get)
  (references.commit.Mine get)
  (references.commitBuilder.Create create)
  (references.commitBuilder.WithValues set)
  (references.commitBuilder.WithParent set)
  (references.commitBuilder.WithProof set)
  (references.commitBuilder.CreatedOn set)
  (references.commits.List get)
  (references.commitsBuilder.Create create)
  (references.commitsBuilder.WithList set)
  (references.contentKey.Hash get)
  (references.contentKey.Kind get)
  (references.contentKey.Content get)
  (references.contentKey.Commit get)
  (references.contentKeyBuilder.Create create)
  (references.contentKeyBuilder.WithHash set)
  (references.contentKeyBuilder.WithKind set)
  (references.contentKeyBuilder.WithContent set)
  (references.contentKeyBuilder.WithCommit set)
  (references.contentKeyBuilder.Now build)
  (references.contentKeys.List get)
  (references.contentContentKeysBuilder.Create create)
  (references.contentContentKeysBuilder.WithList set)
  (references.mine.Result get)
  (references.mine.Proof get)
  (references.mine.Score get)
  (references.pointer.From get)
  (references.pointer.Length get)
  (references.pointerBuilder.Create create)
  (references.pointerBuilder.WithLength set)
  (references.pointerBuilder.From set)
  (references.pointerBuilder.Now build)
  (references.reference.ContentKeys get)
  (references.reference.Commits get)
  (references.commitBuilder.Now build)
  (references.contentContentKeysBuilder.Now build)
  (references.commitsBuilder.Now build)
  (hashtrees.builder.Now head)
  (instructions.assignment.Variable get)
  (instructions.assignment.Value get)
  (instructions.assignmentBuilder.Create create)
  (instructions.assignmentBuilder.WithVariable set)
  (instructions.assignmentBuilder.WithValue set)
  (instructions.assignmentBuilder.Now build)
  (instructions.builder.Create create)
  (instructions.builder.WithList set)
  (instructions.builder.WithRemaining set)
  (instructions.builder.Now build)
  (instructions.instruction.IsModule get)
  (instructions.instruction.Module get)
  (instructions.instruction.IsApplication get)
  (instructions.instruction.Application get)
  (instructions.instruction.IsParameter get)
  (instructions.instruction.Parameter get)
  (instructions.instruction.IsAssignment get)
  (instructions.instruction.Assignment get)
  (instructions.instruction.IsAttachment get)
  (instructions.instruction.Attachment get)
  (instructions.instruction.IsExecution get)
  (instructions.instruction.Execution get)
  (instructions.instructionBuilder.Create create)
  (instructions.instructionBuilder.WithModule set)
  (instructions.instructionBuilder.WithApplication set)
  (instructions.instructionBuilder.WithParameter set)
  (instructions.instructionBuilder.WithAssignment set)
  (instructions.instructionBuilder.WithAttachment set)
  (instructions.instructionBuilder.WithExecution set)
  (instructions.instructionBuilder.Now build)
  (instructions.instructions.List get)
  (instructions.instructions.HasRemaining get)
  (instructions.instructions.Remaining get)
  (instructions.value.IsVariable get)
  (instructions.value.Variable get)
  (instructions.value.IsConstant get)
  (instructions.value.Constant get)
  (instructions.value.IsInstructions get)
  (instructions.value.Instructions get)
  (instructions.value.IsExecution get)
  (instructions.value.Execution get)
  (instructions.valueBuilder.Create create)
  (instructions.valueBuilder.WithVariable set)
  (instructions.valueBuilder.WithConstant set)
  (instructions.valueBuilder.WithInstructions set)
  (instructions.valueBuilder.WithExecution set)
  (instructions.valueBuilder.Now build)
  (iapplications.application.Module get)
  (iapplications.application.Name get)
  (iapplications.builder.Create create)
  (iapplications.builder.WithModule set)
  (iapplications.builder.WithName set)
  (iapplications.builder.Now build)
  (iattachments.attachment.Variable get)
  (iattachments.attachment.Application get)
  (iattachments.builder.Create create)
  (iattachments.builder.WithVariable set)
  (iattachments.builder.WithApplication set)
  (iattachments.builder.Now build)
  (iattachments.variable.Current get)
  (iattachments.variable.Target get)
  (iattachments.variableBuilder.Create create)
  (iattachments.variableBuilder.WithCurrent set)
  (iattachments.variableBuilder.WithTarget set)
  (iattachments.variableBuilder.Now build)
  (imodules.builder.Create create)
  (imodules.builder.WithIndex set)
  (imodules.builder.WithName set)
  (imodules.builder.Now build)
  (imodules.module.Index get)
  (imodules.module.Name get)
  (iparameters.builder.Create create)
  (iparameters.builder.WithName set)
  (iparameters.builder.IsInput set)
  (iparameters.builder.Now build)
  (iparameters.parameter.Name get)
  (iparameters.parameter.IsInput get)
  (programs.application.Index get)
  (programs.application.Module get)
  (programs.application.HasAttachments get)
  (programs.application.Attachments get)
  (programs.applicationBuilder.Create create)
  (programs.applicationBuilder.WithIndex set)
  (programs.applicationBuilder.WithModule set)
  (programs.applicationBuilder.WithAttachments set)
  (programs.applicationBuilder.Now build)
  (programs.attachment.Value get)
  (programs.attachment.Local get)
  (programs.attachmentBuilder.Create create)
  (programs.attachmentBuilder.WithValue set)
  (programs.attachmentBuilder.WithLocal set)
  (programs.attachmentBuilder.Now build)
  (programs.attachments.List get)
  (programs.attachmentsBuilder.Create create)
  (programs.attachmentsBuilder.WithList set)
  (programs.attachmentsBuilder.Now build)
  (programs.builder.Create create)
  (programs.builder.WithInstructions set)
  (programs.builder.WithOutputs set)
  (programs.builder.Now build)
  (programs.instruction.IsValue get)
  (programs.instruction.Value get)
  (programs.instruction.IsExecution get)
  (programs.instruction.Execution get)
  (programs.instructionBuilder.Create create)
  (programs.instructionBuilder.WithValue set)
  (programs.instructionBuilder.WithExecution set)
  (programs.instructionBuilder.Now build)
  (programs.instructions.List get)
  (programs.instructionsBuilder.Create create)
  (programs.instructionsBuilder.WithList set)
  (programs.instructionsBuilder.Now build)
  (programs.program.Instructions get)
  (programs.program.HasOutputs get)
  (programs.program.Outputs get)
  (programs.value.IsInput get)
  (programs.value.Input get)
  (programs.value.IsConstant get)
  (programs.value.Constant get)
  (programs.value.IsExecution get)
  (programs.value.Execution get)
  (programs.value.IsProgram get)
  (programs.value.Program get)
  (programs.valueBuilder.Create create)
  (programs.valueBuilder.WithInput set)
  (programs.valueBuilder.WithConstant set)
  (programs.valueBuilder.WithExecution set)
  (programs.valueBuilder.WithProgram set)
  (programs.valueBuilder.Now build)
  (pmodules.builder.Create create)
  (pmodules.builder.WithList set)
  (pmodules.builder.Now build)
  (pmodules.module.Index get)
  (pmodules.module.Func get)
  (pmodules.moduleBuilder.Create create)
  (pmodules.moduleBuilder.WithIndex set)
  (pmodules.moduleBuilder.WithFunc set)
  (pmodules.moduleBuilder.Now build)
  (pmodules.modules.List get)
  (queries.builder.Create create)
  (queries.builder.WithToken set)
  (queries.builder.WithInside set)
  (queries.builder.WithFn set)
  (queries.builder.Now build)
  (queries.contentFn.IsSingle get)
  (queries.contentFn.Single get)
  (queries.contentFn.IsMulti get)
  (queries.contentFn.Multi get)
  (queries.contentFnBuilder.Create create)
  (queries.contentFnBuilder.WithSingle set)
  (queries.contentFnBuilder.WithMulti set)
  (queries.contentFnBuilder.Now build)
  (queries.element.Name get)
  (queries.element.Index get)
  (queries.elementBuilder.Create create)
  (queries.elementBuilder.WithName set)
  (queries.elementBuilder.WithIndex set)
  (queries.elementBuilder.Now build)
  (queries.fetcher.IsRecursive get)
  (queries.fetcher.Recursive get)
  (queries.fetcher.IsQuery get)
  (queries.fetcher.Query get)
  (queries.fetcherBuilder.Create create)
  (queries.fetcherBuilder.WithRecursive set)
  (queries.fetcherBuilder.WithQuery set)
  (queries.fetcherBuilder.Now build)
  (queries.fetchers.List get)
  (queries.fetchersBuilder.Create create)
  (queries.fetchersBuilder.WithList set)
  (queries.fetchersBuilder.Now build)
  (queries.inside.IsFn get)
  (queries.inside.Fn get)
  (queries.inside.IsFetchers get)
  (queries.inside.Fetchers get)
  (queries.insideBuilder.Create create)
  (queries.insideBuilder.WithFn set)
  (queries.insideBuilder.WithFetchers set)
  (queries.insideBuilder.Now build)
  (queries.query.Token get)
  (queries.query.Inside get)
  (queries.query.Fn get)
  (queries.queryFn.IsSingle get)
  (queries.queryFn.Single get)
  (queries.queryFn.IsMulti get)
  (queries.queryFn.Multi get)
  (queries.queryFnBuilder.Create create)
  (queries.queryFnBuilder.WithSingle set)
  (queries.queryFnBuilder.WithMulti set)
  (queries.queryFnBuilder.Now build)
  (queries.token.Name get)
  (queries.token.ReverseName get)
  (queries.token.Element get)
  (queries.token.HasContent get)
  (queries.token.Content get)
  (queries.tokenBuilder.Create create)
  (queries.tokenBuilder.WithName set)
  (queries.tokenBuilder.WithReverseName set)
  (queries.tokenBuilder.WithElement set)
  (queries.tokenBuilder.WithContent set)
  (queries.tokenBuilder.Now build))
