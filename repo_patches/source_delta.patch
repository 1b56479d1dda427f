From d990afcaba9fb0f01f06a7201542857ed94d0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 01/25] fix: build an hashtree from an empty list of blocks
 instead of panicking

---
 libs/cryptography/domain/hashtrees/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..640f532 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -74,7 +74,7 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
+	for len(app.blocks) <= 1 {
 		app.blocks = append(app.blocks, []byte(""))
 	}
 
-- 
2.43.0


From 81113b07d74265519c2dd688e59086f3b5067444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 02/25] fix: reject truncated hashtree leaves instead of
 panicking

---
 libs/cryptography/domain/hashtrees/leaf_adapter.go   |  8 +++++++-
 libs/cryptography/domain/hashtrees/leaves_adapter.go | 12 +++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..66fe653 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	encodedLength := binary.LittleEndian.Uint64(content[:8])
+	if encodedLength > uint64(contentLength-8) {
+		str := fmt.Sprintf("the left leaf was expected to contain %d bytes, but only %d bytes remain in the content", encodedLength, contentLength-8)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(encodedLength)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..d2d4b03 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,8 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if lengthEndsOn > contentLength {
+			str := fmt.Sprintf("the content was expected to contain %d leaves, but ended before the leaf (index: %d)", length, i)
+			return nil, errors.New(str)
+		}
+
+		encodedLength := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if encodedLength > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the leaf (index: %d) was expected to contain %d bytes, but only %d bytes remain in the content", i, encodedLength, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
 
+		leafLength := int(encodedLength)
 		endsOn := lengthEndsOn + leafLength
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
-- 
2.43.0


From 64610c19dd2d92733c4b64365910592c2ca931e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 03/25] fix: consume each data block only once when ordering
 data with an hashtree

---
 libs/cryptography/domain/hashtrees/adapter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..cd5fb62 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,9 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if blocks := hashed[leafHashAsString]; len(blocks) > 0 {
+			out = append(out, blocks[0])
+			hashed[leafHashAsString] = blocks[1:]
 			continue
 		}
 
-- 
2.43.0


From 1faab84afbdbdcce1a1275eb39ce3ae8814a2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 04/25] fix: reject truncated contents instead of panicking

---
 libs/databases/domain/contents/adapter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..f278066 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,8 +59,18 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of the Content (index: %d), %d remaining", sizeDelimiter, len(list), len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
 
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the Content (index: %d) was expected to contain %d bytes, %d remaining", len(list), size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
+
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
 		if err != nil {
-- 
2.43.0


From c8de9028990a456b63a582cbb00f8cf9f1cacadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 05/25] fix: reject truncated references instead of panicking

---
 libs/databases/domain/references/adapter.go   | 19 +++++++++++++------
 .../domain/references/commit_adapter.go       | 14 ++++++++++++++
 .../domain/references/commits_adapter.go      | 13 ++++++++++++-
 .../domain/references/contentkeys_adapter.go  |  8 +++++++-
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..9023f0c 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,32 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter {
+		str := fmt.Sprintf("the ContentKeys were expected to contain %d bytes in order to convert to a Reference instance, %d bytes provided", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
+
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if uint64(contentLength) < commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the Commits were expected to contain %d bytes in order to convert to a Reference instance, %d bytes provided", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
+
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..2d79d34 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the values were expected to contain %d bytes in order to convert to a Commit instance, %d remaining", valueBytesAmount, contentLength-valuesBytesAmountDelimiter)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of the proof, %d remaining", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the proof was expected to contain %d bytes, %d remaining", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..9440332 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -60,7 +60,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 		}
 
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
+		if len(content) < lengthDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least 8 bytes in order to retrieve the size of the Commit (index: %d), %d remaining", len(list), amount)
+			return nil, errors.New(str)
+		}
+
+		encodedLength := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if encodedLength > uint64(len(content)-lengthDelimiter) {
+			str := fmt.Sprintf("the Commit (index: %d) was expected to contain %d bytes, %d remaining", len(list), encodedLength, len(content)-lengthDelimiter)
+			return nil, errors.New(str)
+		}
+
+		length := int(encodedLength)
 		contentDelimiter := lengthDelimiter + length
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..a259fef 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,7 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	amount := binary.LittleEndian.Uint64(content[:8])
+	if amount > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances of %d bytes, %d bytes provided", amount, contentKeySize, len(content)-8)
+		return nil, errors.New(str)
+	}
+
+	length := int(amount)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From e18def20b338392eb2db84a40c1521251ca4f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 06/25] fix: match compose containers byte by byte and keep
 their contents

---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..213ab1f 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -743,30 +743,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					contentBuilder := app.treeContentBuilder.Create()
+					if value != nil {
+						contentBuilder.WithValue(value)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := contentBuilder.Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From d4973d7579aeeaaaa6413726d843c32fcce55d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 07/25] fix: keep the suffix and the remaining data of external
 trees

---
 libs/asts/applications/application.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 213ab1f..b64b545 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -578,7 +578,18 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		suffix := treeIns.Suffix()
+		treeBuilder.WithSuffix(suffix)
+	}
+
+	if treeIns.HasRemaining() {
+		remaining := treeIns.Remaining()
+		treeBuilder.WithRemaining(remaining)
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From 3e94e443726bd41d7ea9dd3bf5be2f0f1f01d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 08/25] fix: look for the exception again after an escaped
 exception instead of panicking at the end of the data

---
 libs/asts/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index b64b545..0a80f5b 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -655,6 +655,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 									previousData = escapeRemaining
 									remaining = escapeRemaining[amount:]
+									continue
 								}
 							}
 						}
-- 
2.43.0


From 1d1e0309d43d2bc46d6a775c4f3ef63b93922234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 09/25] fix: skip the data consumed by a channel instead of the
 length of its bytes

---
 libs/asts/applications/application.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 0a80f5b..f252b3e 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1029,8 +1029,11 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			rem := []byte{}
+			if tree.HasRemaining() {
+				rem = tree.Remaining()
+			}
+
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From b8d98fee39c9780130e48476a8d569442116c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 10/25] fix: list the uncovered elements of a grammar without
 suites instead of panicking

---
 libs/asts/applications/application.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index f252b3e..aabedd8 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -169,9 +169,12 @@ func (app *application) Uncovered(grammar grammars.Grammar) (map[string]map[uint
 		return nil, err
 	}
 
-	coveredElements, err := app.Covered(coverages)
-	if err != nil {
-		return nil, err
+	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages != nil {
+		coveredElements, err = app.Covered(coverages)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	allElements := map[string]map[uint]map[uint]string{}
-- 
2.43.0


From 862edf3b49e95929f3fcbabc904ad92b66035104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 11/25] fix: include the channels in front of a value in the
 bytes of its content

---
 libs/asts/domain/trees/content.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..8944562 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			output = append(output, value.Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, value.Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From 3301a19b73e83b34b5afc864849895f8291e6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 12/25] fix: match the tokens of an exception instead of
 everything except them

---
 libs/asts/applications/application.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index aabedd8..579eef1 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -638,7 +638,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 						if escapeTree.Block().HasSuccessful() {
 							if escapeTree.HasRemaining() {
 								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
+								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, false, remaining, escapeRemaining)
 								if err == nil && treeLine.IsSuccessful() {
 									amount := len(escapeRemaining) - len(rem)
 									values := escapeRemaining[:amount]
@@ -665,7 +665,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 					}
 				}
 
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
+				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, false, previousData, remaining)
 				if err == nil {
 					break
 				}
-- 
2.43.0


From b61378985e5b4e72cf85df90711e581535f29527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 13/25] fix: restore the enclosing token in the stack after a
 recursion

---
 libs/asts/applications/application.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 579eef1..f89a889 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -514,16 +514,26 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
-		stackMap[tokenName] = &stack{
-			token: token,
-			lines: map[int][]byte{},
+	enclosing, isNested := stackMap[tokenName]
+	lines := map[int][]byte{}
+	if isNested {
+		for idx, data := range enclosing.lines {
+			lines[idx] = data
 		}
 	}
 
+	stackMap[tokenName] = &stack{
+		token: token,
+		lines: lines,
+	}
+
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
 	delete(stackMap, tokenName)
+	if isNested {
+		stackMap[tokenName] = enclosing
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From a554dadec7c7daaf5ad1b01e891f9caec9ed8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 14/25] fix: stop everything at any line of its exception

---
 libs/asts/applications/application.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index f89a889..8ea2d58 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -648,7 +648,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 						if escapeTree.Block().HasSuccessful() {
 							if escapeTree.HasRemaining() {
 								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, false, remaining, escapeRemaining)
+								treeLine, rem, err := app.exception(tokenName, currentStack, lines, escape, channels, remaining, escapeRemaining)
 								if err == nil && treeLine.IsSuccessful() {
 									amount := len(escapeRemaining) - len(rem)
 									values := escapeRemaining[:amount]
@@ -675,7 +675,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 					}
 				}
 
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, false, previousData, remaining)
+				_, _, err := app.exception(tokenName, currentStack, lines, escape, channels, previousData, remaining)
 				if err == nil {
 					break
 				}
@@ -755,6 +755,18 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	return blockIns, remaining, currentStack, nil
 }
 
+func (app *application) exception(tokenName string, stackMap map[string]*stack, lines []grammars.Line, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (trees.Line, []byte, error) {
+	for idx, oneLine := range lines {
+		treeLine, remaining, _, err := app.line(tokenName, stackMap, oneLine, uint(idx), escape, channels, false, prevData, currentData)
+		if err == nil {
+			return treeLine, remaining, nil
+		}
+	}
+
+	str := fmt.Sprintf("no line of the exception (name: %s) matches the given data", tokenName)
+	return nil, nil, errors.New(str)
+}
+
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
 	list := []trees.Element{}
 	grContainers := line.Containers()
-- 
2.43.0


From a4fee3ccaa25a806bf26349e5924a822baa8ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 15/25] fix: index the covered elements by their container in
 the line

---
 libs/asts/applications/application.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8ea2d58..43ec508 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -463,12 +463,19 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 
 	line := block.Successful()
 	index := line.Index()
+	containersList := line.Grammar().Containers()
+	containerIdx := 0
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// the containers without contents are not in the elements
+		for containerIdx < len(containersList) && containersList[containerIdx] != oneElement.Grammar() {
+			containerIdx++
+		}
+
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
@@ -479,7 +486,8 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index] = map[uint]string{}
 		}
 
-		castedElIdx := uint(elIdx)
+		castedElIdx := uint(containerIdx)
+		containerIdx++
 		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
 			covered[tokenName][index][castedElIdx] = elementName
 		}
-- 
2.43.0


From 430d3f9108f3bb58b26966cf843839cc917e984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 16/25] fix: drop the committed contents from the pending ones

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..808d654 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -406,6 +406,7 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 8ce94182d7cb08f07a48feb74075d762e6adc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 17/25] fix: give every open context its own identifier

---
 libs/databases/infrastructure/files/application.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 808d654..3bdf84e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -150,9 +150,19 @@ func (app *application) Open(name string) (*uint, error) {
 	// create a Lock instance on the path:
 	pLock := fslock.New(path)
 
+	// find an identifier that is not used by an open context:
+	identifier := uint(len(app.contexts))
+	for {
+		if _, ok := app.contexts[identifier]; !ok {
+			break
+		}
+
+		identifier++
+	}
+
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  identifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
-- 
2.43.0


From fa78d12df6d5f2d4da6ff8c1322461ff82fd7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 18/25] fix: copy the last partial chunk of the database and
 report copy errors

---
 .../infrastructure/files/application.go          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 3bdf84e..6c157d9 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -621,16 +621,20 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
 
-		for {
+		contentSize := pInfo.Size() - int64(context.dataOffset)
+		endOffset := readOffset + contentSize
+		for readOffset < endOffset {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(uint(endOffset - readOffset))
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -641,7 +645,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
-- 
2.43.0


From 07f74506f6082cc10258c98a91ab29e3ad30729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 19/25] fix: report the errors while writing the contents of a
 commit

---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6c157d9..be96e59 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -659,7 +659,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From 698853032d6f22b47cd96323fda0bdd0d35593fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 20/25] fix: reject the truncated or corrupted reference length
 of a database

---
 .../databases/infrastructure/files/application.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index be96e59..9b0f12c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -195,10 +195,14 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err == io.EOF && refAmount <= 0 {
 		return nil, 0, nil
 	}
 
+	if err != nil {
+		return nil, 0, err
+	}
+
 	if refAmount != expectedReferenceBytesLength {
 		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
 		return nil, 0, errors.New(str)
@@ -206,6 +210,15 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 
 	// convert the reference length to uint64:
 	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if refLength <= 0 || int64(refLength) > pInfo.Size()-int64(expectedReferenceBytesLength) {
+		str := fmt.Sprintf("the reference length (%d) is invalid because the database contains %d bytes", refLength, pInfo.Size())
+		return nil, 0, errors.New(str)
+	}
 
 	// read the reference data:
 	refAllBytes := []byte{}
-- 
2.43.0


From 13e484e189131b5d90962246d2f1b953fe71fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 21/25] fix: reject the pointers that exceed the database when
 reading

---
 libs/databases/infrastructure/files/application.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 9b0f12c..4cbcc13 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -312,8 +312,19 @@ func (app *application) Commits(context uint) (references.Commits, error) {
 // Read reads a pointer on a context
 func (app *application) Read(context uint, pointer references.Pointer) ([]byte, error) {
 	if pContext, ok := app.contexts[context]; ok {
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+		size := uint(pInfo.Size())
+		if offset < pContext.dataOffset || offset > size || length > size-offset {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) exceeds the database", pointer.From(), length)
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From 795265b60005eecff26808fc0d611cb1e76ff7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 22/25] fix: replace the database atomically on commit

---
 libs/databases/infrastructure/files/application.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 4cbcc13..3165306 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -581,13 +581,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// replace the source database by the destination:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
 	err = os.Rename(destinationPath, sourcePath)
-- 
2.43.0


From 7a147caf19cdf1090312b4f242247f52999e57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 23/25] fix: skip the elements without grammar when their index
 does not match the query

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From 349161b840ee2ecec93cb91a0ab59fc0dffd2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 24/25] fix: return an error when a single content func has no
 content

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From 03d8808ef583dfd16fbd6df71f5ff01f13e1ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 25/25] fix: a commit that cannot replace the database keeps
 the context connected

The connection of the context was closed before the rename, so that after a
failed rename the context could neither read, commit again nor be closed.
---
 libs/databases/infrastructure/files/application.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 3165306..e9f4504 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -575,12 +575,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
 	// replace the source database by the destination:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
@@ -589,6 +583,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// close the connection to the former source:
+	err = context.pConn.Close()
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// delete the backup file:
 	err = os.Remove(backupPath)
 	if err != nil {
-- 
2.43.0

