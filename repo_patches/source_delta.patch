From 65179c821b2dbc4e6533fe8bbdfefdc1afed2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 01/65] fix: do not share the number conversion buffer between
 matchers

---
 fastval.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..bca9bb1 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -423,10 +421,11 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// This should be used for implicit conversion, and be hidden from outside callers
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
+	// Each call uses its own buffer: matchers running concurrently must not share one
+	var toJsonStringBuffer []byte
+
 	val, err := val.ToJsonString()
 
 	if err != nil {
-- 
2.43.0


From 14086f95a0f76813d98d7e3e5198478c8c952dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/65] fix: clear the collate status flag when a matcher is
 reset

---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..4b9fcd8 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From 21b36bd061f8152b25b700ab906db6aca3ebc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 03/65] fix: resolve variables of enclosing loops when
 compiling nested loops

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From 9115365578d28b0aca1171a3a841b0d81c613cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 04/65] fix: compile and match conditions that relate a field
 to its own child

---
 fastMatcher.go | 13 +++++++++++++
 transform.go   |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4b9fcd8..bc01705 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -92,6 +92,13 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	panic(fmt.Sprintf("unexpected value: %v", token))
 }
 
+// storeSlot saves where the value that was just scanned is, if the node asks for it
+func (m *FastMatcher) storeSlot(node *ExecNode, startPos int) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = slotData{startPos, m.tokens.Position() - startPos}
+	}
+}
+
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
@@ -599,6 +606,9 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			m.skipValue(token)
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
+			if err == nil {
+				m.storeSlot(node, startPos)
+			}
 			if err == nil && node.After != nil {
 				m.matchAfter(node.After)
 			}
@@ -681,6 +691,9 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
 	}
 
+	// The deferred operations below can refer to this value itself
+	m.storeSlot(node, startPos)
+
 	if node.After != nil {
 		m.matchAfter(node.After)
 
diff --git a/transform.go b/transform.go
index 64ce1ab..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From be16086ceba66322540fdc0b9cd6329bb16dfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 05/65] fix: support NOT EXISTS and constants inside loop
 bodies

---
 expression_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..87edc65 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -96,6 +96,10 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case TrueExpr:
+	case FalseExpr:
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
-- 
2.43.0


From 0963cc901668d6241872b804f7db497adb874823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 06/65] fix: run the conditions on an empty object or array
 itself

---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index bc01705..38dac0c 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -761,7 +761,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From 526347b37fb7d16e16c434636b81300a95f1aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 07/65] fix: match indexed elements of an array that is also
 looped over

---
 fastMatcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 38dac0c..3bfb56b 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -673,6 +673,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 				}
 			}
 
+			// Elements that are referred to by their index need a pass of their own
+			if len(node.Elems) > 0 {
+				m.tokens.Seek(savePos)
+				err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
+				if shouldReturn {
+					return err
+				}
+			}
 		}
 		arrayEndPos := m.tokens.Position()
 
-- 
2.43.0


From 385d0b5afb538300f2039ccfb6da59f115c90e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 08/65] fix: treat a slot that was never stored as missing

---
 fastMatcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 3bfb56b..e8acc36 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -105,6 +105,10 @@ func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	savePos := m.tokens.Position()
 
 	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored, the document does not have the value
+		return value
+	}
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
@@ -534,6 +538,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// Nothing was stored, there is nothing to loop over
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 124355d8958241217297f90a0f85a8a18f474f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 09/65] fix: resolve undecided conditions at the end of each
 loop iteration

---
 bintree.go     | 23 +++++++++++++++++++++++
 fastMatcher.go |  3 +++
 2 files changed, 26 insertions(+)

diff --git a/bintree.go b/bintree.go
index eee2bcd..5c42d7b 100644
--- a/bintree.go
+++ b/bintree.go
@@ -273,6 +273,29 @@ func (state *binTreeState) Resolve() {
 	}
 }
 
+// ResolveNode resolves everything in the tree below one node the same way as
+// Resolve does it for the whole tree.
+func (state *binTreeState) ResolveNode(index int) {
+	// The nodes below a node directly follow it, the right-most one is the last
+	lastIdx := index
+	for {
+		defNode := state.tree.data[lastIdx]
+		if binTreeNodeTypeHasRight(defNode.NodeType) {
+			lastIdx = defNode.Right
+		} else if binTreeNodeTypeHasLeft(defNode.NodeType) {
+			lastIdx = defNode.Left
+		} else {
+			break
+		}
+	}
+
+	for i := lastIdx; i >= index && !state.IsResolved(index); i-- {
+		if !state.IsResolved(i) {
+			state.MarkNode(i, false)
+		}
+	}
+}
+
 func (state *binTreeState) Reset() {
 	state.stallIndex = 0
 	for i := range state.data {
diff --git a/fastMatcher.go b/fastMatcher.go
index e8acc36..fe3209e 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -470,6 +470,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Whatever this element did not decide is false for it
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From 5f41fae9185520a4535d4c62bf64b9e7651caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 10/65] fix: forget the values of the previous element in each
 loop iteration

---
 fastMatcher.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index fe3209e..33f2100 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -99,6 +99,24 @@ func (m *FastMatcher) storeSlot(node *ExecNode, startPos int) {
 	}
 }
 
+// clearSlots forgets all the values which were stored for a node or below it
+func (m *FastMatcher) clearSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.clearSlots(elem)
+	}
+	for _, loop := range node.Loops {
+		m.clearSlots(loop.Node)
+	}
+	if node.After != nil {
+		for _, loop := range node.After.Loops {
+			m.clearSlots(loop.Node)
+		}
+	}
+}
+
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
@@ -463,6 +481,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// Reset the looping node in the binary tree so that previous iterations
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
+		m.clearSlots(loop.Node)
 
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
-- 
2.43.0


From 75ef47e16e4bd06ea3134a0088954996b2388949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 11/65] fix: report malformed documents as errors instead of
 panicking or ignoring them

---
 fastMatcher.go | 62 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 33f2100..e2d8ae4 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -63,7 +64,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return errors.New("unexpected end of input")
 		}
 	}
 }
@@ -89,7 +90,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return fmt.Errorf("unexpected value: %v", tokenToText(token))
 }
 
 // storeSlot saves where the value that was just scanned is, if the node asks for it
@@ -430,8 +431,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -466,7 +466,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return fmt.Errorf("expected array element delimiter got %s", tokenToText(token))
 			}
 		}
 
@@ -500,7 +500,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -510,7 +513,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -520,7 +526,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -567,6 +576,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -633,17 +645,20 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if err == nil {
 				m.storeSlot(node, startPos)
 			}
 			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
+				err = m.matchAfter(node.After)
 			}
 
-			if shouldReturn {
+			if shouldReturn || err != nil {
 				return err
 			}
 
@@ -726,14 +741,17 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return fmt.Errorf("invalid token read - tokenType: %v data: %v", tokenToText(token), string(tokenData))
 	}
 
 	// The deferred operations below can refer to this value itself
 	m.storeSlot(node, startPos)
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -783,12 +801,12 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			case tknArrayEnd:
 				return nil, false
 			case tknEnd:
-				return nil, true
+				return errors.New("unexpected end of input"), true
 			case tknListDelim:
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return fmt.Errorf("expected object field element delimiter, received: %v", tokenToText(token)), true
 			}
 		}
 
@@ -817,7 +835,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return fmt.Errorf("expected literal, received: %v", tokenToText(token)), true
 			}
 		}
 
@@ -831,7 +849,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return fmt.Errorf("expected object key delimiter: got %v, %v", tokenToText(token), string(tokenData)), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -844,7 +862,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -854,7 +875,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From 11f1e77cff72741dec48834ad9b4542242635059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 12/65] fix: do not panic on integer division or modulo by zero

---
 fastval_math.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..1c43449 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -465,6 +465,8 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
+			} else if uint1Check == 0 {
+				return NewInvalidFastVal()
 			} else {
 				if intCheck >= 0 {
 					return genericFastVal2UintsOp(val, val1, fastValMathDivUint)
@@ -475,6 +477,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
 		case FloatValue:
 			fallthrough
@@ -535,6 +541,8 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return NewInvalidFastVal()
+			} else if uint1Check == 0 {
+				return NewInvalidFastVal()
 			} else {
 				if intCheck >= 0 {
 					return genericFastVal2UintsOp(val, val1, fastValMathModUint)
@@ -545,6 +553,10 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathMod)
 		default:
 			return NewInvalidFastVal()
-- 
2.43.0


From d58f2949ce16a6d212ff007cd1b3d8e86fd12907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 13/65] fix: keep integers exact in ABS, CEIL and FLOOR, and
 round large floats correctly

---
 fastval_math.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 1c43449..1532702 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -4,13 +4,8 @@ import (
 	"math"
 )
 
-// floatRound implements math.Round for Go versions older than
-// 1.10 which did not have the function... Wat?
 func floatMathRound(val float64) float64 {
-	if val < 0 {
-		return float64(int(val - 0.5))
-	}
-	return float64(int(val + 0.5))
+	return math.Round(val)
 }
 
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
@@ -49,7 +44,12 @@ func FastValMathAbs(val FastVal) FastVal {
 		if val.IsFloat() {
 			return NewFloatFastVal(math.Abs(floatVal))
 		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
+			// A large integer would lose its last digits as a float
+			if intVal, _ := val.AsInt(); intVal < 0 {
+				return NewIntFastVal(fastValNegateInt(intVal))
+			} else {
+				return NewIntFastVal(intVal)
+			}
 		}
 	}
 
@@ -215,10 +215,18 @@ func FastValMathLog(val FastVal) FastVal {
 }
 
 func FastValMathCeil(val FastVal) FastVal {
+	if val.IsInt() || val.IsUInt() {
+		// There is nothing to cut off
+		return val
+	}
 	return genericFastValFloatOp(val, math.Ceil)
 }
 
 func FastValMathFloor(val FastVal) FastVal {
+	if val.IsInt() || val.IsUInt() {
+		// There is nothing to cut off
+		return val
+	}
 	return genericFastValFloatOp(val, math.Floor)
 }
 
-- 
2.43.0


From 0fe8ddc5bedc16a4c5b6d097384aa0bb85712f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 14/65] fix: compare signed with unsigned integers by value

---
 fastval.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fastval.go b/fastval.go
index bca9bb1..d283405 100644
--- a/fastval.go
+++ b/fastval.go
@@ -253,7 +253,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -264,7 +264,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
@@ -757,7 +757,8 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// A negative value is less than any unsigned one
+				return -1, true
 			}
 		default:
 			return val.compareInt(other)
@@ -769,11 +770,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
+			intVal, _ := other.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// Any unsigned value is greater than a negative one
+				return 1, true
 			}
 		case FloatValue:
 			fallthrough
-- 
2.43.0


From a023381272a9382f0ccd785a1163fa159ca769bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 15/65] fix: read integers that do not fit into 63 bits without
 overflowing

---
 fastlitparse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..6a320c7 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -6,6 +6,9 @@ import (
 	"strconv"
 )
 
+// maxFastIntLen is how long an integer can be and always fit into 64 bits
+const maxFastIntLen = 18
+
 type fastLitParser struct {
 	tmpInt       int64
 	tmpNum       float64
@@ -72,6 +75,15 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
+		if len(bytes) > maxFastIntLen {
+			// This may not fit into a signed integer
+			if val, err := strconv.ParseInt(string(bytes), 10, 64); err == nil {
+				return NewIntFastVal(val)
+			} else if val, err := strconv.ParseUint(string(bytes), 10, 64); err == nil {
+				return NewUintFastVal(val)
+			}
+			return NewFloatFastVal(p.ParseNumber(bytes))
+		}
 		return NewIntFastVal(p.ParseInt(bytes))
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
-- 
2.43.0


From 078fad1dd004b1e3844e6c839ecd8656dc9f3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 16/65] fix: compare and match strings by their characters
 instead of their escaped form

---
 fastval.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/fastval.go b/fastval.go
index d283405..a2e7224 100644
--- a/fastval.go
+++ b/fastval.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"math"
@@ -448,6 +449,26 @@ func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	return val, err
 }
 
+// toStringBytes returns the characters a value stands for when it is used as a string
+func (val FastVal) toStringBytes() ([]byte, error) {
+	switch val.dataType {
+	case StringValue:
+		return []byte(val.data.(string)), nil
+	case BinStringValue:
+		return val.sliceData, nil
+	}
+
+	escVal, err := val.toJsonStringInternal()
+	if err == nil && val.dataType == JsonStringValue && bytes.IndexByte(val.sliceData, '\\') >= 0 {
+		// Undo what ToJsonString did
+		str, unquoteErr := strconv.Unquote(`"` + string(val.sliceData) + `"`)
+		if unquoteErr == nil {
+			return []byte(str), nil
+		}
+	}
+	return escVal.sliceData, err
+}
+
 func (val FastVal) ToJsonString() (FastVal, error) {
 	invalidErr := errors.New("invalid type coercion")
 	switch val.dataType {
@@ -580,10 +601,10 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
 	if other.IsString() || other.IsNumeric() {
-		escVal, err := val.toJsonStringInternal()
-		escOval, err1 := other.toJsonStringInternal()
+		valBytes, err := val.toStringBytes()
+		otherBytes, err1 := other.toStringBytes()
 
-		result := strings.Compare(string(escVal.sliceData), string(escOval.sliceData))
+		result := strings.Compare(string(valBytes), string(otherBytes))
 		return result, err == nil && err1 == nil
 	} else if other.userDefined {
 		// User defined means that this val should try to implicit convert to the other type
@@ -905,7 +926,7 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	escVal, err := val.toJsonStringInternal()
+	valBytes, err := val.toStringBytes()
 	if err != nil {
 		return false, false
 	}
@@ -914,7 +935,7 @@ func (val FastVal) matchStrings(other FastVal) (bool, bool) {
 	if !valid {
 		return false, valid
 	} else {
-		return regex.Match(escVal.sliceData), true
+		return regex.Match(valBytes), true
 	}
 }
 
-- 
2.43.0


From d84c96dd1902fce6b8b3b7a04acc1ea44b7402bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 17/65] fix: do not combine unicode escapes that are no
 surrogate pair

---
 fastlitescape.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index a752c17..1e2373c 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -73,10 +73,13 @@ func decodeUnicodeEscape(in []byte) (rune, int) {
 	} else if r <= basicMultilingualPlaneOffset && !isUTF16EncodedRune(r) {
 		// Valid Unicode escape in Basic Multilingual Plane
 		return r, 6
+	} else if r >= lowSurrogateOffset {
+		// UTF16 "low surrogate" without the "high surrogate" before it
+		return utf8.RuneError, -1
 	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
 		// UTF16 "high surrogate" without manditory valid following Unicode escape for the "low surrogate"
 		return utf8.RuneError, -1
-	} else if r2 < lowSurrogateOffset {
+	} else if r2 < lowSurrogateOffset || r2 > basicMultilingualPlaneReservedOffset {
 		// Invalid UTF16 "low surrogate"
 		return utf8.RuneError, -1
 	} else {
-- 
2.43.0


From 0ee9d6fb160c3c9e7fca3a97d9736eb9fd90c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 18/65] fix: compile constants that are part of an expression

---
 transform.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/transform.go b/transform.go
index 1f1037b..d3e4368 100644
--- a/transform.go
+++ b/transform.go
@@ -542,8 +542,27 @@ func (t *Transformer) transformLike(expr LikeExpr) *ExecNode {
 	return t.transformComparison(expr, OpTypeMatches, expr.Lhs, expr.Rhs)
 }
 
+func (t *Transformer) transformTrue(expr TrueExpr) *ExecNode {
+	// The value that is being matched is always there
+	baseNode := t.pickBaseNode(expr)
+
+	baseNode.AddOp(OpNode{
+		t.ActiveBucketIdx,
+		OpTypeExists,
+		nil,
+		nil,
+	})
+
+	return nil
+}
+
 func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
+	case TrueExpr:
+		return t.transformTrue(expr)
+	case FalseExpr:
+		// Without any operation this is never going to be true
+		return nil
 	case mergeExpr:
 		return t.transformMerge(expr)
 	case AnyInExpr:
-- 
2.43.0


From c3e664a56a0f0b64a60050335f7a43b319e3e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 19/65] fix: support constant expressions when matching

---
 fastMatcher.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index e2d8ae4..a967260 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -891,6 +891,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, nil
 	}
 
+	if m.def.ParseNode == nil {
+		// All the expressions are constant
+		return m.hasAlwaysTrue(), nil
+	}
+
 	token, tokenData, tokenDataLen, err := m.tokens.Step()
 	if err != nil {
 		return false, err
@@ -905,7 +910,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.buckets.IsTrue(0) || m.hasAlwaysTrue(), nil
+}
+
+// hasAlwaysTrue tells if one of the expressions matches every document
+func (m *FastMatcher) hasAlwaysTrue() bool {
+	for _, binTreeIdx := range m.def.MatchBuckets {
+		if binTreeIdx == AlwaysTrueIdent {
+			return true
+		}
+	}
+	return false
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -919,6 +934,11 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	if binTreeIdx == AlwaysTrueIdent {
+		return true
+	} else if binTreeIdx == AlwaysFalseIdent {
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From c67026fa4905895ebcad44ab812fe66ca4e62316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 20/65] fix: accept a string as the last element of an array
 when removing items

---
 jsonComposer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..429024a 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,11 +130,14 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				switch tknType2 {
+				case tknObjectEnd, tknArrayEnd:
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
 					}
+				case tknObjectStart, tknArrayStart:
+					depth++
 				}
 				continue
 			}
-- 
2.43.0


From bdc1c8bb3415bef60cdf477b291d01afc87bcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 21/65] fix: report a destination that is too small instead of
 panicking

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 429024a..1f7f6ba 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,6 +41,9 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
+	if len(data) > len(composer.body)-composer.pos {
+		return ErrInsufficientMemory
+	}
 	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
 	if n != len(data) {
 		return ErrInsufficientMemory
-- 
2.43.0


From 5207e43cfa34df38bf5510f86fe36fcaf4cb918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 22/65] fix: remove an item only once when its key is listed
 several times

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 1f7f6ba..bb699aa 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -263,6 +263,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+
+			// the item is gone, the other keys cannot match it
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From c5055b0b5e761f46faf3b79495bfacbf4810ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 23/65] fix: leave out the whitespace before the value of a
 removed item

---
 jsonComposer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index bb699aa..7fc26b8 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -199,9 +199,10 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			valEnd := valStart
 			valueDepth := 0
 			valueFound := false
+			valueStarted := false
 
 			for !valueFound {
-				tknType3, _, _, err = tokenizer.Step()
+				tknType3, _, tknLen, err = tokenizer.Step()
 				if err != nil {
 					err = fmt.Errorf("error stepping to next token, expecting JSON value, src=%s, pos=%v, err=%v", src, tokenizer.Position(), err)
 					return handleError(err)
@@ -209,6 +210,11 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 				tknType = tknType3
 
 				valEnd = tokenizer.Position()
+				if !valueStarted {
+					// the value starts after any whitespace that is between the ":" and itself
+					valStart = valEnd - tknLen
+					valueStarted = true
+				}
 
 				if isLiteralToken(tknType3) {
 					if valueDepth == 0 {
-- 
2.43.0


From d8051ae48bc5bbcd109a871717dba92bc83aa126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 24/65] fix: recognise keys that are written with escapes when
 removing items

---
 jsonComposer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 7fc26b8..382a86a 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -106,7 +106,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		tknType = tknType1
 
 		switch tknType1 {
-		case tknString:
+		case tknString, tknEscString:
 			// string token can be a JSON key or a string JSON value
 			// if the next token is ":", then potentialKey is a JSON key
 			tknType2, potentialObjDelimiter, _, err = tokenizer.Step()
@@ -172,7 +172,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		case tknUnknown:
 			return handleError(ErrUnrecognisedToken)
 		default:
-			// can be tknObjectKeyDelim, tknListDelim, tknEscString, tknInteger, tknNumber,
+			// can be tknObjectKeyDelim, tknListDelim, tknInteger, tknNumber,
 			// tknNull, tknTrue, tknFalse
 			err = composer.Write(potentialKey, tknType1)
 			if err != nil {
@@ -185,6 +185,11 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 
 		// strip off the quotes from the string for matching
 		key := potentialKey[1 : tknLen-1]
+		if tknType1 == tknEscString {
+			if unescapedKey, unescapeErr := unescapeJsonString(key, nil); unescapeErr == nil {
+				key = unescapedKey
+			}
+		}
 
 		matched := false
 		for _, keyToRemove := range remove {
-- 
2.43.0


From 0c5b36880d6315cb73111d2128e3fb2618f0a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 25/65] fix: report incomplete or mistyped JSON expressions
 instead of panicking

---
 expression_json.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..1918219 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -8,6 +8,10 @@ import (
 )
 
 func parseJsonValue(data []interface{}) (Expression, error) {
+	switch data[1].(type) {
+	case []interface{}, map[string]interface{}:
+		return nil, errors.New("invalid value expression format")
+	}
 	return ValueExpr{
 		data[1],
 	}, nil
@@ -37,9 +41,15 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 	if funcName, ok := data[pos].(string); ok {
 		out.FuncName = funcName
 		pos++
+	} else {
+		return nil, errors.New("invalid func expression name format")
 	}
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
+
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,13 +287,20 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	if _, ok := data[1].(string); !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
 	return RegexExpr{
 		data[1],
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	dateStr, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid time expression format")
+	}
+	if !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
@@ -291,13 +308,32 @@ func parseJsonTime(data []interface{}) (Expression, error) {
 	}, nil
 }
 
+// minJsonExprLen is how many elements an expression array has at least
+func minJsonExprLen(exprType string) int {
+	switch exprType {
+	case "anyin", "everyin", "anyeveryin":
+		return 4
+	case "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like":
+		return 3
+	}
+	return 2
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("empty expression")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data) < minJsonExprLen(exprType) {
+		return nil, errors.New("incomplete expression")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From 95fce96f64dc5117a053aff7954bd848d2947f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 26/65] fix: do not simplify loops whose result still depends
 on the array

---
 expression_compact.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..82f8685 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -42,21 +42,16 @@ func compactExpressionAnd(expr AndExpr) Expression {
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
+	// Even a condition that is always true needs an element to satisfy it
 	return expr
 }
 
 func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
+	// The result depends on the array even if the condition is constant: it is
+	// false when there is none, and true when there is an empty one
 	return expr
 }
 
-- 
2.43.0


From bf907a28d89a32c757628a7fb68e4c2c87b1bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 27/65] fix: accept dates with any of the separators that are
 recognised

---
 fastval_date.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a058fd9..a93906f 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -3,6 +3,7 @@ package gojsonsm
 import (
 	"fmt"
 	"regexp"
+	"strings"
 	"time"
 )
 
@@ -21,13 +22,16 @@ func validTimeChecker(s string) bool {
 	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
 }
 
+// dateSeparators turns the separators a date may be written with into the one RFC3339 has
+var dateSeparators = strings.NewReplacer("/", "-", ".", "-", " ", "-")
+
 func isoToRfc(str string) string {
 	if iso8601Year.MatchString(str) {
 		str = fmt.Sprintf(`%s-01-01T00:00:00Z`, str)
 	} else if iso8601YearAndMonth.MatchString(str) {
-		str = fmt.Sprintf(`%s-01T00:00:00Z`, str)
+		str = fmt.Sprintf(`%s-01T00:00:00Z`, dateSeparators.Replace(str))
 	} else if iso8601CompleteDate.MatchString(str) {
-		str = fmt.Sprintf(`%sT00:00:00Z`, str)
+		str = fmt.Sprintf(`%sT00:00:00Z`, dateSeparators.Replace(str))
 	}
 	return str
 }
@@ -44,9 +48,9 @@ func FastValDateFunc(val FastVal) FastVal {
 		if iso8601Year.Match(binVal.sliceData) {
 			str = fmt.Sprintf(`%s-01-01T00:00:00Z`, binVal.sliceData)
 		} else if iso8601YearAndMonth.Match(binVal.sliceData) {
-			str = fmt.Sprintf(`%s-01T00:00:00Z`, binVal.sliceData)
+			str = fmt.Sprintf(`%s-01T00:00:00Z`, dateSeparators.Replace(string(binVal.sliceData)))
 		} else if iso8601CompleteDate.Match(binVal.sliceData) {
-			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
+			str = fmt.Sprintf(`%sT00:00:00Z`, dateSeparators.Replace(string(binVal.sliceData)))
 		} else if cbSampleDateFormat.Match(binVal.sliceData) {
 			// len() call is very expensive. Use .Match() first then FindSubmatch
 			submatches := cbSampleDateFormat.FindSubmatch(binVal.sliceData)
@@ -59,7 +63,7 @@ func FastValDateFunc(val FastVal) FastVal {
 				// 4: 01
 				// 5: 23:59:59
 				// 6: 23
-				str = fmt.Sprintf(`%sT%sZ`, submatches[1], submatches[5])
+				str = fmt.Sprintf(`%sT%sZ`, dateSeparators.Replace(string(submatches[1])), submatches[5])
 			}
 		} else {
 			str = fmt.Sprintf(`%s`, binVal.sliceData)
-- 
2.43.0


From 7bea0e331cbf7f48f3608f8c1d4e84eda6315a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 28/65] fix: do not match conditions whose functions use a
 missing field

---
 fastMatcher.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index a967260..321b5b5 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -255,6 +255,21 @@ func (m *FastMatcher) resolveParam(in interface{}, activeLit *FastVal) FastVal {
 	}
 }
 
+// usesMissingSlot checks whether an operand needs, itself or through functions, a slot that has no value
+func (m *FastMatcher) usesMissingSlot(in interface{}) bool {
+	switch opVal := in.(type) {
+	case SlotRef:
+		return m.slots[opVal.Slot-1].size == 0
+	case FuncRef:
+		for _, param := range opVal.Params {
+			if m.usesMissingSlot(param) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	bucketIdx := int(op.BucketIdx)
 
@@ -268,7 +283,7 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	lhsVal := NewMissingFastVal()
 	if op.Lhs != nil {
 		lhsVal = m.resolveParam(op.Lhs, litVal)
-		if _, ok := op.Lhs.(SlotRef); ok && lhsVal.IsMissing() {
+		if m.usesMissingSlot(op.Lhs) {
 			slotNotFound = true
 		}
 	} else if litVal != nil {
@@ -278,7 +293,7 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	rhsVal := NewMissingFastVal()
 	if op.Rhs != nil {
 		rhsVal = m.resolveParam(op.Rhs, litVal)
-		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
+		if m.usesMissingSlot(op.Rhs) {
 			slotNotFound = true
 		}
 	} else if litVal != nil {
-- 
2.43.0


From 8a6c2a3417230f37fcec587ec6e33f7fb59bcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 29/65] fix: report invalid regular expressions instead of
 panicking

---
 filterExprParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..fd50d9d 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1187,6 +1188,9 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
+		if _, err := regexp.Compile(f.Argument.String()); err != nil {
+			return nil, err
+		}
 		return RegexExpr{f.Argument.String()}, nil
 	}
 }
-- 
2.43.0


From 638bbbf40845bf3abdbb189de126c96fe0e82735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 30/65] fix: apply all the operations of a chain of arithmetic
 operations

---
 filterExprParser.go | 71 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 4 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index fd50d9d..7035fa5 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -25,7 +25,8 @@ import (
 // CheckOp                  = ( "IS" [ "NOT" ] ( NULL | MISSING ) )
 // FieldWithMath            = FieldWMathType0 | FieldWMathType1
 // FieldWMathType0          = MathValue MathOp Field
-// FieldWMathType1          = Field { MathOp ( MathValue | Field ) }
+// FieldWMathType1          = Field [ MathOperation { MathOperation } ]
+// MathOperation            = MathOp ( MathValue | Field )
 // Field                    = { @"-" } OnePath { "." OnePath }
 // OnePath                  = ( PathFuncExpression | StringType ){ ArrayIndex }
 // StringType               = @Ident | @RawString | @Char
@@ -513,9 +514,59 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
+	MathOp     *FEMathArithmeticOp `[ @@`
 	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	OtherField *FEField            `@@ )`
+	MoreMath   []*FEMathOperation  `{ @@ } ] )`
+}
+
+// An operation which follows the first one of a FieldWMathType1
+type FEMathOperation struct {
+	MathOp     *FEMathArithmeticOp `( @@`
+	MathValue  *FEMathValue        `( @@ | `
+	OtherField *FEField            `@@ ) )`
+}
+
+func (f *FEMathOperation) OutputExpression() (FuncExpr, Expression, error) {
+	if f.MathOp == nil || (f.MathValue == nil && f.OtherField == nil) {
+		return FuncExpr{}, nil, fmt.Errorf("Invalid FEMathOperation")
+	}
+
+	mathOpExpr, err := f.MathOp.OutputExpression()
+	if err != nil {
+		return FuncExpr{}, nil, err
+	}
+
+	var operand Expression
+	if f.MathValue != nil {
+		operand, err = f.MathValue.OutputExpression()
+	} else {
+		operand, err = f.OtherField.OutputExpression()
+	}
+	return mathOpExpr.(FuncExpr), operand, err
+}
+
+func (f *FEMathOperation) String() string {
+	if f.MathOp != nil && f.MathValue != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.MathValue.String())
+	} else if f.MathOp != nil && f.OtherField != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.OtherField.String())
+	} else {
+		return "?? (FEMathOperation)"
+	}
+}
+
+// appendMathOperation continues an arithmetic expression with one more operation.  Multiplicative
+// operations bind tighter than additive ones, and operations of the same kind go from left to right.
+func appendMathOperation(lhs Expression, op FuncExpr, rhs Expression) Expression {
+	lastOp, isFunc := lhs.(FuncExpr)
+	if isFunc && (lastOp.FuncName == MathFuncAdd || lastOp.FuncName == MathFuncSub) &&
+		op.FuncName != MathFuncAdd && op.FuncName != MathFuncSub {
+		op.Params = []Expression{lastOp.Params[1], rhs}
+		return FuncExpr{FuncName: lastOp.FuncName, Params: []Expression{lastOp.Params[0], op}}
+	}
+	op.Params = []Expression{lhs, rhs}
+	return op
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -531,6 +582,9 @@ func (f *FEFieldWithMathType1) String() string {
 			output = append(output, f.OtherField.String())
 		}
 	}
+	for _, operation := range f.MoreMath {
+		output = append(output, operation.String())
+	}
 	return strings.Join(output, " ")
 }
 
@@ -566,7 +620,16 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 			}
 			mathOutExpr.Params = append(mathOutExpr.Params, field2Expr)
 		}
-		return mathOutExpr, nil
+
+		var outExpr Expression = mathOutExpr
+		for _, operation := range f.MoreMath {
+			opExpr, operandExpr, err := operation.OutputExpression()
+			if err != nil {
+				return nil, err
+			}
+			outExpr = appendMathOperation(outExpr, opExpr, operandExpr)
+		}
+		return outExpr, nil
 	} else {
 		// No math
 		return f.Field.OutputExpression()
-- 
2.43.0


From be7a064720fe5cb5bd0b0746e5c7bd41d0ede232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 31/65] fix: do not repeat an array index that is followed by a
 field

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..c59e1e8 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -943,7 +943,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || (pos < len(token)-1 && (string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator)) {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From 8b28143267fd02fe4b9f67a9673a311c45f9e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 32/65] fix: resolve functions in the second argument of a
 function

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index c59e1e8..4502666 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1705,7 +1705,7 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			helper.resolveRecursiveFuncs(subMatches[i], key)
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
-- 
2.43.0


From 18be47372808c26636f7e41092829b316766c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 33/65] fix: report operands without an operator instead of
 panicking

---
 simpleParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 4502666..0dcfd39 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1113,10 +1113,10 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 	}
 
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if ctx.subCtx.lastOpIndex < 0 || ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
-- 
2.43.0


From d4a573a7cf02d6689bd652dfbc2862cedc88f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 34/65] fix: do not ignore a boolean that follows AND or OR

---
 simpleParser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 0dcfd39..0a22294 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1053,6 +1053,18 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
+		if newNode.tokenType.isBoolType() && ctx.subCtx.opTokenContext.isChainOp() && ctx.subCtx.lastOpIndex != -1 {
+			// A boolean after a chain op is complete by itself, so it is the right side of that op
+			ctx.parserTree.data[ctx.subCtx.lastBinTreeDataNode].ParentIdx = ctx.subCtx.lastOpIndex
+			ctx.parserTree.data[ctx.subCtx.lastOpIndex].Right = ctx.subCtx.lastBinTreeDataNode
+			if ctx.parserTree.data[ctx.subCtx.lastOpIndex].ParentIdx == -1 {
+				ctx.treeHeadIndex = ctx.subCtx.lastOpIndex
+			}
+			ctx.subCtx.lastValueIndex = ctx.subCtx.lastBinTreeDataNode
+			ctx.subCtx.lastSubFieldNode = ctx.subCtx.lastOpIndex
+			ctx.subCtx.currentMode = valueMode
+			break
+		}
 		// FieldMode - nothing to do just record this as the last field
 		ctx.subCtx.lastFieldIndex = ctx.subCtx.lastBinTreeDataNode
 		ctx.subCtx.lastSubFieldNode = ctx.subCtx.lastBinTreeDataNode
-- 
2.43.0


From 8355aeb90af989fb6e2970e9d29f82a45fa26339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 35/65] fix: reject simple expressions of which a part would be
 ignored

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 0a22294..47c249e 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1694,6 +1694,11 @@ func (ctx *expressionParserContext) outputExpression() (Expression, error) {
 		return emptyExpression, fmt.Errorf("Error: Invalid op node type: %v", node.tokenType.String())
 	}
 
+	if ctx.parserTree.data[ctx.treeHeadIndex].ParentIdx != -1 {
+		// Something follows the head that was not combined with it
+		return emptyExpression, fmt.Errorf("Error: Incomplete expression")
+	}
+
 	return ctx.outputOp(node, ctx.treeHeadIndex)
 }
 
-- 
2.43.0


From 62831e426fc875f2460187f9d5bc3f9a07d64cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 36/65] fix: output booleans between AND and OR as conditions

---
 simpleParser.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 47c249e..2c43510 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1638,6 +1638,18 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// chainOperand makes a boolean that stands by itself a condition instead of a value
+func chainOperand(expr Expression) Expression {
+	if value, ok := expr.(ValueExpr); ok {
+		if value.Value == true {
+			return TrueExpr{}
+		} else if value.Value == false {
+			return FalseExpr{}
+		}
+	}
+	return expr
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
@@ -1653,8 +1665,8 @@ func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Exp
 		return out, err
 	}
 
-	out = append(out, leftSubExpr)
-	out = append(out, rightSubExpr)
+	out = append(out, chainOperand(leftSubExpr))
+	out = append(out, chainOperand(rightSubExpr))
 
 	return out, nil
 }
@@ -1673,8 +1685,8 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 		return out, err
 	}
 
-	out = append(out, leftSubExpr)
-	out = append(out, rightSubExpr)
+	out = append(out, chainOperand(leftSubExpr))
+	out = append(out, chainOperand(rightSubExpr))
 
 	return out, nil
 }
-- 
2.43.0


From e65d30a4d2b952b0c5f18f84802c5fa41e78e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 37/65] fix: order strings and booleans that have nothing in
 common by their type

---
 fastval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastval.go b/fastval.go
index a2e7224..8fef087 100644
--- a/fastval.go
+++ b/fastval.go
@@ -622,7 +622,7 @@ func (val FastVal) compareStrings(other FastVal) (int, bool) {
 			}
 		}
 	}
-	return 0, false
+	return val.Collate(other)
 }
 
 func (val FastVal) compareTime(other FastVal) (int, bool) {
-- 
2.43.0


From dbbaa14db9cfefee8be449879cb888e1f6d2dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 38/65] fix: do not match loops over a missing array because of
 a negation inside of them

---
 bintree.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bintree.go b/bintree.go
index 5c42d7b..ead0129 100644
--- a/bintree.go
+++ b/bintree.go
@@ -260,6 +260,7 @@ func (state *binTreeState) Resolve() {
 
 	// Do depth-first resolution of the entire tree state
 	treeLength := len(state.data)
+	state.resolveLoops(0, treeLength-1)
 	for i := treeLength - 1; i >= 0; i-- {
 		// If this bucket is not resolved, resolve it with false
 		if state.data[i] == binTreeStateUnknown {
@@ -273,6 +274,17 @@ func (state *binTreeState) Resolve() {
 	}
 }
 
+// resolveLoops resolves those of the nodes in the given range with `false` which are
+// loops that never ran. What is below them must not be looked at, it is about elements
+// of an array which does not exist.
+func (state *binTreeState) resolveLoops(firstIdx, lastIdx int) {
+	for i := firstIdx; i <= lastIdx; i++ {
+		if state.tree.data[i].NodeType == nodeTypeLoop && state.data[i] == binTreeStateUnknown {
+			state.MarkNode(i, false)
+		}
+	}
+}
+
 // ResolveNode resolves everything in the tree below one node the same way as
 // Resolve does it for the whole tree.
 func (state *binTreeState) ResolveNode(index int) {
@@ -289,6 +301,7 @@ func (state *binTreeState) ResolveNode(index int) {
 		}
 	}
 
+	state.resolveLoops(index, lastIdx)
 	for i := lastIdx; i >= index && !state.IsResolved(index); i-- {
 		if !state.IsResolved(i) {
 			state.MarkNode(i, false)
-- 
2.43.0


From e7d1c5f45e0bb0b849bb00b14db474c30e852026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 39/65] fix: compile and match loops over an array of an outer
 context

---
 transform.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index d3e4368..f9cbe35 100644
--- a/transform.go
+++ b/transform.go
@@ -419,9 +419,38 @@ func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
 	return nil
 }
 
-func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID VariableID, inExpr, subExpr Expression) *ExecNode {
+// pickLoopBaseNode finds where to run a loop. Usually this is where its array is scanned
+// but if the array belongs to an outer context, or is needed as a whole by the body of
+// the loop too, it has to be stored beforehand.
+func (t *Transformer) pickLoopBaseNode(expr Expression, varID VariableID, inExpr, subExpr Expression) nodeRef {
 	baseNode := t.pickBaseNode(expr)
 
+	inField, ok := inExpr.(FieldExpr)
+	if !ok {
+		return baseNode
+	}
+
+	if len(t.ContextStack) > 0 {
+		currentContext := t.ContextStack[len(t.ContextStack)-1]
+		if t.resolveRef(inField).Context != currentContext {
+			return nodeRef{after: t.getAfterNode(currentContext.Node)}
+		}
+	}
+
+	if baseNode.node != nil {
+		for _, field := range fetchExprFieldRefsRecurse(subExpr, []VariableID{varID}, nil) {
+			if fieldExprMatches(field, inField) {
+				return nodeRef{after: t.getAfterNode(baseNode.node)}
+			}
+		}
+	}
+
+	return baseNode
+}
+
+func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID VariableID, inExpr, subExpr Expression) *ExecNode {
+	baseNode := t.pickLoopBaseNode(expr, varID, inExpr, subExpr)
+
 	newNode := &ExecNode{}
 
 	loopTarget, err := t.makeDataRef(inExpr, baseNode)
-- 
2.43.0


From a5c03e7d4b8f5c29234920beea05259cbb659750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 40/65] fix: slow matcher: a list of expressions matches if any
 of them does

---
 slowmatcher.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..db9fb96 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -295,10 +295,8 @@ func (m *SlowMatcher) Match(data []byte) (bool, error) {
 
 		m.exprMatches[i] = res
 
-		if i == 0 && res {
+		if res {
 			matched = true
-		} else if !res {
-			matched = false
 		}
 	}
 
-- 
2.43.0


From 945db27c0f977d3afcc25bdf344dab58fad7461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 41/65] fix: filter text: a negative number on the left side of
 a comparison

---
 filterExprParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 7035fa5..8a63442 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1583,7 +1583,7 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe)
+	parser, err := participle.Build(fe, participle.UseLookahead(2))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From b7e8f7877d6f0b1ac700738615e227a404321177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 42/65] fix: simple parser: conditions without a value chain
 from left to right like others

---
 simpleParser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 2c43510..fcf4a1d 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -533,7 +533,12 @@ func (ctx *expressionParserContext) advanceToken() error {
 	case opMode:
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
-			// These ops do not have fields
+			// These ops do not have values
+			if ctx.subCtx.oneLayerMode {
+				// The condition is complete, so return in order to merge it like one that ends with a value
+				ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+				return NonErrorOneLayerDone
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
-- 
2.43.0


From 8cb3c76af3fa05e7d7ad4a6b2d34589b850c3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 43/65] fix: simple parser: AND and OR words and unseparated
 operators count when mixing them

---
 simpleParser.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index fcf4a1d..8533e7d 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1164,20 +1164,13 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 
 // Enable short circuit if expression is linked by only && or only ||
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
-	var operator string
-	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
-			} else {
-				if ctx.tokens[i] != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
-		}
+	var hasOr, hasAnd bool
+	for _, token := range ctx.tokens {
+		// The operators may not be separated from their neighbours yet
+		hasOr = hasOr || strings.Contains(token, TokenOperatorOr) || strings.Contains(token, TokenOperatorOr2)
+		hasAnd = hasAnd || strings.Contains(token, TokenOperatorAnd) || strings.Contains(token, TokenOperatorAnd2)
 	}
+	ctx.shortCircuitEnabled = hasOr != hasAnd
 }
 
 // Main high level portion of the parser
-- 
2.43.0


From 18b8ef4c60abc75d4745ad63347c2069a4e98983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 44/65] fix: simple parser: operators inside the names of
 fields do not end the names

---
 simpleParser.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 8533e7d..36996a3 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -221,7 +221,15 @@ func NewOpSeeker(token string) *opSeeker {
 }
 
 func (os *opSeeker) Seek() bool {
+	inLiteral := false
 	for i := 0; i < len(os.completeToken); i++ {
+		if os.completeToken[i:i+1] == fieldLiteral {
+			inLiteral = !inLiteral && strings.Contains(os.completeToken[i+1:], fieldLiteral)
+		}
+		if inLiteral {
+			// What is between backticks belongs to the name of a field
+			continue
+		}
 		os.idx = i
 		os.seekInternal(i)
 		if os.opFound {
@@ -237,7 +245,7 @@ func (os *opSeeker) GetToken() string {
 
 func (os *opSeeker) seekInternal(curIdx int) {
 	compiledStr := os.completeToken[os.idx:curIdx]
-	if tokenIsOpType(compiledStr) {
+	if tokenIsOpType(compiledStr) && !os.isPartOfName(curIdx) {
 		if !os.opFound {
 			os.opFound = true
 		}
@@ -258,6 +266,18 @@ func (os *opSeeker) seekInternal(curIdx int) {
 	}
 }
 
+// An operator that is a word is not separated from the letters and digits next to it
+func (os *opSeeker) isPartOfName(curIdx int) bool {
+	isNameChar := func(i int) bool {
+		if i < 0 || i >= len(os.completeToken) {
+			return false
+		}
+		c := os.completeToken[i]
+		return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= 0x80
+	}
+	return isNameChar(os.idx) && (isNameChar(os.idx-1) || isNameChar(curIdx))
+}
+
 type expressionParserContext struct {
 	// For token reading
 	tokens               []string
@@ -1246,7 +1266,12 @@ func (ctx *expressionParserContext) getAndSeparateToken() (string, ParseTokenTyp
 	delim := lastSeeker.GetToken()
 	token := ctx.tokens[ctx.currentTokenIndex]
 
-	tokenSplitSlice := StringSplitFirstInst(token, delim)
+	var tokenSplitSlice []string
+	for _, part := range []string{token[:lastSeeker.idx], delim, token[lastSeeker.idx+len(delim):]} {
+		if part != "" {
+			tokenSplitSlice = append(tokenSplitSlice, part)
+		}
+	}
 	lenSlice := len(tokenSplitSlice)
 	if lenSlice > 1 {
 		numToInsert := lenSlice - 1
-- 
2.43.0


From 26a7d4e7f8ced71e66b785891d44019afe8ed75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 45/65] fix: simple parser: fields with blanks in their names
 after an operator

---
 simpleParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 36996a3..cb2f29e 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1204,6 +1204,7 @@ func (ctx *expressionParserContext) parse() error {
 			break
 		}
 
+		firstTokenIndex := ctx.currentTokenIndex
 		token, tokenType, err = ctx.getCurrentToken()
 		if err != nil {
 			break
@@ -1222,6 +1223,11 @@ func (ctx *expressionParserContext) parse() error {
 			currentSubCtx := NewParserSubContext()
 			*currentSubCtx = *ctx.subCtx
 
+			if tokenType == TokenTypeField {
+				// The new context reads the field again, from the start of its name
+				ctx.currentTokenIndex = firstTokenIndex
+			}
+
 			if err == ErrorNeedToStartNewCtx {
 				// Starting a new context means the new sub context continues until it ends or hits an end paren
 				ctx.subCtx = NewParserSubContext()
-- 
2.43.0


From b62d81d84f9ffafc72b2435d51dfda23e6608845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 46/65] fix: simple parser: the first element of an array can
 be addressed

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index cb2f29e..114a917 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -948,7 +948,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && !strings.HasPrefix(token[pos+1:], fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
-- 
2.43.0


From 8ce70611c53aa175eca5a673b586047a4fdea49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 47/65] fix: simple parser: functions as arguments of
 functions, and arguments that do not fit

---
 simpleParser.go | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 114a917..eb2e4bb 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1434,7 +1434,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
@@ -1743,6 +1743,39 @@ func (ctx *expressionParserContext) outputExpression() (Expression, error) {
 	return ctx.outputOp(node, ctx.treeHeadIndex)
 }
 
+// Splits at the commas that are not between parentheses, quotes or backticks.
+// Returns nil if any of these is not closed
+func splitFuncArgs(args string) []string {
+	var out []string
+	var quote byte
+	depth, begin := 0, 0
+	for i := 0; i < len(args); i++ {
+		c := args[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '"' || c == '\'' || c == '`':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth < 0 {
+				return nil
+			}
+		case c == ',' && depth == 0:
+			out = append(out, args[begin:i])
+			begin = i + 1
+		}
+	}
+	if depth != 0 || quote != 0 {
+		return nil
+	}
+	return append(out, args[begin:])
+}
+
 func (helper *funcOutputHelper) resetLevel() {
 	helper.lvlMarker = 0
 }
@@ -1757,13 +1790,23 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if len(subMatches) > 1 {
+		// The regex does not know about inner functions and names with commas
+		args := splitFuncArgs(token[len(lastFunc)+1 : len(token)-1])
+		if len(args) != len(subMatches)-1 {
+			return ErrorInvalidFuncArgs
+		}
+		copy(subMatches[1:], args)
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[i], key)
+			if err := helper.resolveRecursiveFuncs(subMatches[i], key); err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
-- 
2.43.0


From d3f940c9022bb5152301780daab71446b70e71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 48/65] fix: simple parser: white space in values and names is
 kept

---
 simpleParser.go | 53 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index eb2e4bb..bf5abfd 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -9,6 +9,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 )
 
 /**
@@ -43,8 +45,8 @@ import (
  */
 
 // Values by def should be enclosed within double quotes or single quotes
-var valueRegex *regexp.Regexp = regexp.MustCompile(`^\".*\"$`)
-var valueRegex2 *regexp.Regexp = regexp.MustCompile(`^\'.*\'$`)
+var valueRegex *regexp.Regexp = regexp.MustCompile(`(?s)^\".*\"$`)
+var valueRegex2 *regexp.Regexp = regexp.MustCompile(`(?s)^\'.*\'$`)
 
 // Or Values can be int or floats by themselves (w/o alpha char)
 var valueNumRegex *regexp.Regexp = regexp.MustCompile(`^(-?)(0|([1-9][0-9]*))(\.[0-9]+)?$`)
@@ -328,10 +330,46 @@ const (
 	cfmNestedNumeric checkFieldMode = iota
 )
 
+// Splits at white space. Between quotes and backticks only single blanks separate tokens, so that what
+// is between them is the same again when the tokens are joined by blanks
+func splitIntoTokens(strExpression string) []string {
+	var tokens []string
+	var quote rune
+	begin := -1
+	lastWasSpace := true
+	for i, c := range strExpression {
+		if quote == 0 {
+			if (c == '"' || c == '\'' || c == '`') && strings.ContainsRune(strExpression[i+1:], c) {
+				quote = c
+			}
+		} else if c == quote {
+			quote = 0
+		}
+
+		separates := unicode.IsSpace(c)
+		if separates && quote != 0 {
+			next, _ := utf8.DecodeRuneInString(strExpression[i+1:])
+			separates = c == ' ' && !lastWasSpace && !unicode.IsSpace(next)
+		}
+		lastWasSpace = unicode.IsSpace(c)
+
+		if separates && begin >= 0 {
+			tokens = append(tokens, strExpression[begin:i])
+			begin = -1
+		} else if !separates && begin < 0 {
+			begin = i
+		}
+	}
+	if begin >= 0 {
+		tokens = append(tokens, strExpression[begin:])
+	}
+	return tokens
+}
+
 func NewExpressionParserCtx(strExpression string) (*expressionParserContext, error) {
 	subCtx := NewParserSubContext()
 	ctx := &expressionParserContext{
-		tokens:            strings.Fields(strExpression),
+		tokens:            splitIntoTokens(strExpression),
 		subCtx:            subCtx,
 		treeHeadIndex:     -1,
 		fieldTokenPaths:   make(map[int][]string),
@@ -799,10 +837,11 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 }
 
 func tokenIsUnfinishedValueType(token string) (string, bool) {
-	if strings.HasPrefix(token, `"`) && !strings.HasSuffix(token, `"`) {
-		return `"`, true
-	} else if strings.HasPrefix(token, "'") && !strings.HasSuffix(token, "'") {
-		return `'`, true
+	for _, delim := range []string{`"`, `'`} {
+		// A delim alone is the start of a value that begins with a blank
+		if strings.HasPrefix(token, delim) && (len(token) == 1 || !strings.HasSuffix(token, delim)) {
+			return delim, true
+		}
 	}
 	return "", false
 }
-- 
2.43.0


From f6f6a8df0c8eeadf5076a0e276226132fbf9cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 49/65] fix: simple parser: a value ends at its quote, and
 names and values may contain parentheses

---
 simpleParser.go | 66 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index bf5abfd..037a90c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -223,13 +223,18 @@ func NewOpSeeker(token string) *opSeeker {
 }
 
 func (os *opSeeker) Seek() bool {
-	inLiteral := false
+	literal := ""
 	for i := 0; i < len(os.completeToken); i++ {
-		if os.completeToken[i:i+1] == fieldLiteral {
-			inLiteral = !inLiteral && strings.Contains(os.completeToken[i+1:], fieldLiteral)
+		c := os.completeToken[i : i+1]
+		if literal != "" {
+			// What is between backticks or quotes belongs to the name of a field or to a value
+			if c == literal {
+				literal = ""
+			}
+			continue
 		}
-		if inLiteral {
-			// What is between backticks belongs to the name of a field
+		if (c == fieldLiteral || c == `"` || c == `'`) && strings.Contains(os.completeToken[i+1:], c) {
+			literal = c
 			continue
 		}
 		os.idx = i
@@ -563,9 +568,9 @@ func (opCtx *opTokenContext) clear() {
 
 // returns a delim string, or true for valueNumRegex match, nor nil if no match
 func valueCheck(token string) interface{} {
-	if valueRegex.MatchString(token) {
+	if valueRegex.MatchString(token) && findValueEnd(token[1:], `"`) == len(token)-2 {
 		return `"`
-	} else if valueRegex2.MatchString(token) {
+	} else if valueRegex2.MatchString(token) && findValueEnd(token[1:], `'`) == len(token)-2 {
 		return "'"
 	} else if valueNumRegex.MatchString(token) {
 		return true
@@ -825,10 +830,12 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
 		return ctx.getFuncFieldTokenHelper(token, key)
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
-		return ctx.getCurrentTokenParenHelper(token)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
+	} else if ctx.subCtx.currentMode == fieldMode && tokenIsUnfinishedField(token) {
+		return ctx.getTokenFieldTokenHelper()
+	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+		return ctx.getCurrentTokenParenHelper(token)
 	} else if found := ctx.checkPotentialSeparation(token); found {
 		return ctx.getAndSeparateToken()
 	} else {
@@ -836,30 +843,53 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	}
 }
 
+// A value may contain the delimiter, so it only ends at one before a blank, a parenthesis or a chain operator.
+// Returns -1 if there is none
+func findValueEnd(token, delim string) int {
+	for i := 0; i < len(token); i++ {
+		rest := strings.TrimPrefix(token[i:], delim)
+		if len(rest) == len(token)-i {
+			continue
+		}
+		if rest == "" || rest[0] == ')' || unicode.IsSpace(rune(rest[0])) || strings.HasPrefix(rest, TokenOperatorAnd) || strings.HasPrefix(rest, TokenOperatorOr) {
+			return i
+		}
+	}
+	return -1
+}
+
 func tokenIsUnfinishedValueType(token string) (string, bool) {
 	for _, delim := range []string{`"`, `'`} {
-		// A delim alone is the start of a value that begins with a blank
-		if strings.HasPrefix(token, delim) && (len(token) == 1 || !strings.HasSuffix(token, delim)) {
+		if strings.HasPrefix(token, delim) && findValueEnd(token[1:], delim) < 0 {
 			return delim, true
 		}
 	}
 	return "", false
 }
 
+// The name of a field between backticks continues in the next token
+func tokenIsUnfinishedField(token string) bool {
+	beforeLiteral := strings.Index(token, fieldLiteral)
+	return beforeLiteral >= 0 && !strings.Contains(token[:beforeLiteral], "(") && strings.Count(token, fieldLiteral)%2 == 1
+}
+
 func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (string, ParseTokenType, error) {
 	outputToken := strings.TrimPrefix(ctx.tokens[ctx.currentTokenIndex], delim)
 	tokensLen := len(ctx.tokens)
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
-			ctx.handleParenSuffix(")")
-			tokensLen = len(ctx.tokens)
-			token = ctx.tokens[ctx.currentTokenIndex]
-		}
-		if strings.HasSuffix(token, delim) {
+		if end := findValueEnd(token, delim); end >= 0 {
 			breakout = true
-			token = strings.TrimSuffix(token, delim)
+			if end+1 < len(token) {
+				// What follows the value is a token by itself
+				ctx.tokens = append(ctx.tokens, "")
+				copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
+				ctx.tokens[ctx.currentTokenIndex] = token[:end+1]
+				ctx.tokens[ctx.currentTokenIndex+1] = token[end+1:]
+				tokensLen = len(ctx.tokens)
+			}
+			token = token[:end]
 		}
 		outputToken = fmt.Sprintf("%s %s", outputToken, token)
 
-- 
2.43.0


From 6d9f7dccea5afb7bff365332d34f9508740e2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 50/65] fix: simple parser: refuse fields whose parts are not
 separated

---
 constants.go    | 1 +
 simpleParser.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/constants.go b/constants.go
index 2dfadc4..17039f3 100644
--- a/constants.go
+++ b/constants.go
@@ -104,6 +104,7 @@ var ErrorAllInts error = fmt.Errorf("Array index must be a valid integer")
 var ErrorEmptyNest error = fmt.Errorf("Array index cannot be empty")
 var ErrorMissingBacktickBracket error = fmt.Errorf("Invalid field - could not find matching ending backtick or bracket")
 var ErrorMissingQuote error = fmt.Errorf("Invalid token - could not find matching ending quote")
+var ErrorFieldPartSeparator error = fmt.Errorf("Invalid field - a part after a literal or an index must be separated by a period")
 var ErrorEmptyLiteral error = fmt.Errorf("Literals cannot be empty")
 var ErrorEmptyToken error = fmt.Errorf("Token cannot be empty")
 var ErrorInvalidFuncArgs error = fmt.Errorf("Unable to parse arguments to specified built in function")
diff --git a/simpleParser.go b/simpleParser.go
index 037a90c..b903151 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -979,6 +979,9 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					beginPos = pos + 1
 				case fieldLiteral:
+					if pos != beginPos {
+						return outputToken, ErrorFieldPartSeparator
+					}
 					mode = cfmBacktick
 					beginPos = pos + 1
 					nextMode = cfmNone
@@ -1011,6 +1014,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					mode = nextMode
 					if pos != len(token)-1 && (string(token[pos+1]) == fieldSeparator || string(token[pos+1]) == fieldNestedStart) || pos == len(token)-1 {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorFieldPartSeparator
 					}
 				}
 			case cfmNestedNumeric:
@@ -1039,6 +1044,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					if pos == len(token)-1 || (pos < len(token)-1 && (string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator)) {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorFieldPartSeparator
 					}
 				case fieldSeparator:
 					fallthrough
-- 
2.43.0


From 66a7be9f37025571a1ac57ff0336ba21962ad9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 51/65] fix: simple parser: parentheses, blanks and operators
 in names and values are no part of the formula

---
 simpleParser.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index b903151..f6f57fb 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -280,7 +280,7 @@ func (os *opSeeker) isPartOfName(curIdx int) bool {
 			return false
 		}
 		c := os.completeToken[i]
-		return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= 0x80
+		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= 0x80
 	}
 	return isNameChar(os.idx) && (isNameChar(os.idx-1) || isNameChar(curIdx))
 }
@@ -335,8 +335,8 @@ const (
 	cfmNestedNumeric checkFieldMode = iota
 )
 
-// Splits at white space. Between quotes and backticks only single blanks separate tokens, so that what
-// is between them is the same again when the tokens are joined by blanks
+// Splits at white space, except between backticks. Between quotes only single blanks separate tokens, so that
+// what is between them is the same again when the tokens are joined by blanks
 func splitIntoTokens(strExpression string) []string {
 	var tokens []string
 	var quote rune
@@ -351,7 +351,7 @@ func splitIntoTokens(strExpression string) []string {
 			quote = 0
 		}
 
-		separates := unicode.IsSpace(c)
+		separates := unicode.IsSpace(c) && string(quote) != fieldLiteral
 		if separates && quote != 0 {
 			next, _ := utf8.DecodeRuneInString(strExpression[i+1:])
 			separates = c == ' ' && !lastWasSpace && !unicode.IsSpace(next)
@@ -832,9 +832,11 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getFuncFieldTokenHelper(token, key)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
-	} else if ctx.subCtx.currentMode == fieldMode && tokenIsUnfinishedField(token) {
-		return ctx.getTokenFieldTokenHelper()
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+	} else if paren := findParen(token); paren >= 0 {
+		if found := ctx.checkPotentialSeparation(token); found && ctx.subCtx.lastSeeker.idx < paren {
+			// The parenthesis may belong to a value that follows the operator
+			return ctx.getAndSeparateToken()
+		}
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if found := ctx.checkPotentialSeparation(token); found {
 		return ctx.getAndSeparateToken()
@@ -843,6 +845,22 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	}
 }
 
+// Finds the first parenthesis that is not between backticks, or returns -1
+func findParen(token string) int {
+	inLiteral := false
+	for i := 0; i < len(token); i++ {
+		switch token[i : i+1] {
+		case fieldLiteral:
+			inLiteral = !inLiteral
+		case "(", ")":
+			if !inLiteral {
+				return i
+			}
+		}
+	}
+	return -1
+}
+
 // A value may contain the delimiter, so it only ends at one before a blank, a parenthesis or a chain operator.
 // Returns -1 if there is none
 func findValueEnd(token, delim string) int {
@@ -867,12 +885,6 @@ func tokenIsUnfinishedValueType(token string) (string, bool) {
 	return "", false
 }
 
-// The name of a field between backticks continues in the next token
-func tokenIsUnfinishedField(token string) bool {
-	beforeLiteral := strings.Index(token, fieldLiteral)
-	return beforeLiteral >= 0 && !strings.Contains(token[:beforeLiteral], "(") && strings.Count(token, fieldLiteral)%2 == 1
-}
-
 func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (string, ParseTokenType, error) {
 	outputToken := strings.TrimPrefix(ctx.tokens[ctx.currentTokenIndex], delim)
 	tokensLen := len(ctx.tokens)
-- 
2.43.0


From 3ac2b88e2326b24c537f6fb4d74d8ce441151c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 52/65] fix: simple parser: a date that looks like a number

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index f6f57fb..c620ec1 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1529,6 +1529,11 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			out.Params = append(out.Params, argField)
 		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
 			// value
+			if out.FuncName == DateFunc {
+				// A date such as "2019" is not a number
+				out.Params = append(out.Params, ValueExpr{strArg})
+				continue
+			}
 			valueExpr, err := outputValueInternal(strArg)
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output value: %v", strArg)
-- 
2.43.0


From 58e61b33e78c25c6a236cd241f887389a7a0a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 53/65] fix: simple parser: a field or function alone is no
 condition

---
 simpleParser.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index c620ec1..31f23f1 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1761,15 +1761,21 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 }
 
 // chainOperand makes a boolean that stands by itself a condition instead of a value
-func chainOperand(expr Expression) Expression {
-	if value, ok := expr.(ValueExpr); ok {
-		if value.Value == true {
-			return TrueExpr{}
-		} else if value.Value == false {
-			return FalseExpr{}
+// Fields, functions and other values are no conditions
+func chainOperand(expr Expression) (Expression, error) {
+	switch operand := expr.(type) {
+	case ValueExpr:
+		if operand.Value == true {
+			return TrueExpr{}, nil
+		} else if operand.Value == false {
+			return FalseExpr{}, nil
 		}
+	case FieldExpr:
+	case FuncExpr:
+	default:
+		return expr, nil
 	}
-	return expr
+	return expr, fmt.Errorf("Error: Not a condition: %v", expr)
 }
 
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
@@ -1787,8 +1793,15 @@ func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Exp
 		return out, err
 	}
 
-	out = append(out, chainOperand(leftSubExpr))
-	out = append(out, chainOperand(rightSubExpr))
+	if leftSubExpr, err = chainOperand(leftSubExpr); err != nil {
+		return out, err
+	}
+	if rightSubExpr, err = chainOperand(rightSubExpr); err != nil {
+		return out, err
+	}
+
+	out = append(out, leftSubExpr)
+	out = append(out, rightSubExpr)
 
 	return out, nil
 }
@@ -1807,8 +1820,15 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 		return out, err
 	}
 
-	out = append(out, chainOperand(leftSubExpr))
-	out = append(out, chainOperand(rightSubExpr))
+	if leftSubExpr, err = chainOperand(leftSubExpr); err != nil {
+		return out, err
+	}
+	if rightSubExpr, err = chainOperand(rightSubExpr); err != nil {
+		return out, err
+	}
+
+	out = append(out, leftSubExpr)
+	out = append(out, rightSubExpr)
 
 	return out, nil
 }
-- 
2.43.0


From 0f696a488582cf35a1c87375ee60517ba6af6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 54/65] fix: simple parser: looking for operators in long words
 takes linear time

---
 simpleParser.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 31f23f1..cccd3e6 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -238,7 +238,7 @@ func (os *opSeeker) Seek() bool {
 			continue
 		}
 		os.idx = i
-		os.seekInternal(i)
+		os.seekInternal()
 		if os.opFound {
 			return true
 		}
@@ -250,27 +250,16 @@ func (os *opSeeker) GetToken() string {
 	return os.opMatched
 }
 
-func (os *opSeeker) seekInternal(curIdx int) {
-	compiledStr := os.completeToken[os.idx:curIdx]
-	if tokenIsOpType(compiledStr) && !os.isPartOfName(curIdx) {
-		if !os.opFound {
+// Finds the longest operator that starts where the seeker is
+func (os *opSeeker) seekInternal() {
+	maxLen := len(flattenToken(TokenOperatorIsNotNull))
+	for curIdx := os.idx + 1; curIdx <= len(os.completeToken) && curIdx-os.idx <= maxLen; curIdx++ {
+		compiledStr := os.completeToken[os.idx:curIdx]
+		if tokenIsOpType(compiledStr) && !os.isPartOfName(curIdx) {
 			os.opFound = true
-		}
-		if curIdx == len(os.completeToken) {
-			// The last character just happens to be the op
 			os.opMatched = compiledStr
-			return
-		}
-	} else {
-		if os.opFound {
-			os.opMatched = os.completeToken[os.idx : curIdx-1]
-			return
 		}
 	}
-
-	if curIdx < len(os.completeToken) {
-		os.seekInternal(curIdx + 1)
-	}
 }
 
 // An operator that is a word is not separated from the letters and digits next to it
-- 
2.43.0


From 0d5da55af0ca3ba9eb626f619a4f846e51712bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 55/65] fix: simple parser: conditions are no operands of
 comparisons

---
 simpleParser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index cccd3e6..48f75d2 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1594,9 +1594,22 @@ func (ctx *expressionParserContext) getComparisonSubExprsNodes(node ParserTreeNo
 		return nil, nil, err
 	}
 
+	if isCondition(leftSubExpr) || isCondition(rightSubExpr) {
+		return nil, nil, fmt.Errorf("Error: Operand of %v is a condition", node.data)
+	}
+
 	return leftSubExpr, rightSubExpr, err
 }
 
+// Conditions have no values that could be compared
+func isCondition(expr Expression) bool {
+	switch expr.(type) {
+	case FieldExpr, FuncExpr, ValueExpr, RegexExpr, PcreExpr:
+		return false
+	}
+	return true
+}
+
 func (ctx *expressionParserContext) getSingleLeftSubExprsNodes(node ParserTreeNode, pos int) (Expression, error) {
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 
@@ -1605,6 +1618,12 @@ func (ctx *expressionParserContext) getSingleLeftSubExprsNodes(node ParserTreeNo
 		return nil, err
 	}
 
+	switch leftSubExpr.(type) {
+	case FieldExpr, FuncExpr:
+	default:
+		return nil, fmt.Errorf("Error: Operand of %v is neither a field nor a function", node.data)
+	}
+
 	return leftSubExpr, err
 }
 
-- 
2.43.0


From 29af4f90793c423e8fd6fa3ac32128dfa8408e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 56/65] fix: simple parser: a pattern that contains blanks is
 checked like others

---
 simpleParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 48f75d2..50271c7 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -773,6 +773,10 @@ func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, P
 	token = strings.TrimPrefix(token, delim)
 	token = strings.TrimSuffix(token, delim)
 
+	return ctx.checkValueToken(token)
+}
+
+func (ctx *expressionParserContext) checkValueToken(token string) (string, ParseTokenType, error) {
 	if ctx.getTokenValueSubtype() != TokenTypeValue {
 		_, err := regexp.Compile(token)
 		if err != nil {
@@ -903,7 +907,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 		return "", TokenTypeInvalid, ErrorMissingQuote
 	}
 
-	return outputToken, ctx.getTokenValueSubtype(), nil
+	return ctx.checkValueToken(outputToken)
 }
 
 func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
-- 
2.43.0


From 591228e5bb26dc1689a3563b40be9f4cbaecfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 57/65] fix: simple parser: refuse Perl patterns where they are
 not supported

---
 simpleParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 50271c7..a880540 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1469,7 +1469,11 @@ func (ctx *expressionParserContext) outputRegex(node ParserTreeNode) (Expression
 }
 
 func (ctx *expressionParserContext) outputPcre(node ParserTreeNode) (Expression, error) {
-	return PcreExpr{node.data}, nil
+	pattern, ok := node.data.(string)
+	if !ok {
+		return emptyExpression, fmt.Errorf("Error: Invalid pattern: %v", node.data)
+	}
+	return MakePcreExpression(pattern)
 }
 
 func (ctx *expressionParserContext) outputField(pos int) (Expression, error) {
-- 
2.43.0


From bda25f8381cc7ee005e53b3665e02c7ee66b5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 58/65] fix: simple parser: refuse expressions of which parts
 would be lost

---
 simpleParser.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index a880540..e745a5b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1869,9 +1869,34 @@ func (ctx *expressionParserContext) outputExpression() (Expression, error) {
 		return emptyExpression, fmt.Errorf("Error: Incomplete expression")
 	}
 
+	if !ctx.isTreeComplete() {
+		return emptyExpression, fmt.Errorf("Error: Parts of the expression were not combined with others")
+	}
+
 	return ctx.outputOp(node, ctx.treeHeadIndex)
 }
 
+// Whether all that was parsed is below the head of the tree, exactly once
+func (ctx *expressionParserContext) isTreeComplete() bool {
+	seen := make([]bool, len(ctx.parserTree.data))
+	numSeen := 0
+	toVisit := []int{ctx.treeHeadIndex}
+	for len(toVisit) > 0 {
+		pos := toVisit[len(toVisit)-1]
+		toVisit = toVisit[:len(toVisit)-1]
+		if pos < 0 {
+			continue
+		}
+		if pos >= len(seen) || seen[pos] {
+			return false
+		}
+		seen[pos] = true
+		numSeen++
+		toVisit = append(toVisit, ctx.parserTree.data[pos].Left, ctx.parserTree.data[pos].Right)
+	}
+	return numSeen == len(seen)
+}
+
 // Splits at the commas that are not between parentheses, quotes or backticks.
 // Returns nil if any of these is not closed
 func splitFuncArgs(args string) []string {
-- 
2.43.0


From 9c3525584257a2d3e61976d859bf57bbbccb7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 59/65] fix: expression statistics know every kind of
 expression

Scan panicked on NOT, pattern matches, TRUE, FALSE, times and patterns.
---
 expressionstats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..3f9eab6 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -34,8 +34,12 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	switch expr := expr.(type) {
 	case FieldExpr:
 		stats.NumFields++
-	case ValueExpr:
+	case TrueExpr, FalseExpr:
+		// Nothing to count
+	case ValueExpr, TimeExpr, RegexExpr, PcreExpr:
 		stats.NumValues++
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
 	case FuncExpr:
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
@@ -93,6 +97,9 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	case GreaterEqualsExpr:
 		stats.scanOne(expr.Lhs, loopDepth)
 		stats.scanOne(expr.Rhs, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	default:
 		panic("unexpected expression type")
 	}
-- 
2.43.0


From 2dfd8889ce39d7d8381c67cd3af3055b15c49420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 60/65] fix: a definition of constant expressions can be
 printed

It has neither a parse node nor a tree; String dereferenced nil.
---
 fastMatcherDef.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fastMatcherDef.go b/fastMatcherDef.go
index 24178f4..dcdafb2 100644
--- a/fastMatcherDef.go
+++ b/fastMatcherDef.go
@@ -172,11 +172,15 @@ func (def MatchDef) String() string {
 	var out string
 	out += "match tree:\n"
 	out += "  $doc:\n"
-	out += reindentString(def.ParseNode.String(), "    ")
-	out += "\n"
+	if def.ParseNode != nil {
+		out += reindentString(def.ParseNode.String(), "    ")
+		out += "\n"
+	}
 	out += "bin tree:\n"
-	out += reindentString(def.MatchTree.String(), "  ")
-	out += "\n"
+	if def.MatchTree.NumNodes() > 0 {
+		out += reindentString(def.MatchTree.String(), "  ")
+		out += "\n"
+	}
 	out += "match buckets:\n"
 	for i, bucketID := range def.MatchBuckets {
 		out += fmt.Sprintf("  %d: %d\n", i, bucketID)
-- 
2.43.0


From 5e7b89b49ad0fc5073913aa6759e473e25efe5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 61/65] fix: slot numbers start anew with every transformation

A transformer used again gave definitions with slots for the fields of
all expressions it had compiled before.
---
 transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform.go b/transform.go
index f9cbe35..8477cb3 100644
--- a/transform.go
+++ b/transform.go
@@ -634,6 +634,7 @@ var AlwaysFalseIdent = -2
 func (t *Transformer) Transform(exprs []Expression) *MatchDef {
 	t.RootExec = &ExecNode{}
 	t.ContextStack = nil
+	t.SlotIdx = 0
 	t.BucketIdx = 1
 	t.ActiveBucketIdx = 0
 	t.RootTree = binTree{[]binTreeNode{
-- 
2.43.0


From 66f6a747888c16848ca2ff80034767750ffc93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 62/65] fix: slow matcher: a loop leaves the variable of the
 loop around it alone

---
 slowmatcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/slowmatcher.go b/slowmatcher.go
index db9fb96..f4fdeb6 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -137,6 +137,14 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, err
 	}
 
+	// A loop around this one can have the same variable
+	outerVal, hasOuter := m.vars[expr.VarId]
+	defer func() {
+		if hasOuter {
+			m.vars[expr.VarId] = outerVal
+		}
+	}()
+
 	switch vals := vals.(type) {
 	case map[string]interface{}:
 		for _, val := range vals {
-- 
2.43.0


From 310688a318aab69cb3e4cc8353525132c820f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 63/65] fix: print the arithmetic of a field in a filter text
 completely

---
 filterExprParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 8a63442..e0c8e4a 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -574,9 +574,9 @@ func (f *FEFieldWithMathType1) String() string {
 	if f.Field != nil {
 		output = append(output, f.Field.String())
 	}
-	if f.MathValue != nil && (f.MathOp != nil || f.OtherField != nil) {
+	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
 		output = append(output, f.MathOp.String())
-		if f.MathOp != nil {
+		if f.MathValue != nil {
 			output = append(output, f.MathValue.String())
 		} else {
 			output = append(output, f.OtherField.String())
-- 
2.43.0


From 38f45d22076e22acae10cdf5584baacb3bc1088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:07 +0000
Subject: [PATCH 64/65] fix: a quoted string or name in a filter text was taken
 for the operator or keyword it spells

a = "<" and `true` = 1 were refused, and a "=" 1 "AND" b = 2 was
read as a = 1 AND b = 2. The literals of the grammar now name the type of
token they stand for. (Quoted "true" and "false" still compare as truth
values.)
---
 filterExprParser.go | 158 +++++++++++++++++++++++++++-----------------
 1 file changed, 96 insertions(+), 62 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index e0c8e4a..aeb5f64 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -5,6 +5,8 @@ package gojsonsm
 import (
 	"fmt"
 	"github.com/alecthomas/participle"
+	"github.com/alecthomas/participle/lexer"
+	"io"
 	"math"
 	"regexp"
 	"strings"
@@ -72,7 +74,7 @@ func (f *FilterExpression) OutputExpression() (Expression, error) {
 }
 
 type FEInnerExpression struct {
-	Expr []*FEInnerAndExpression `@@ { "OR" @@ }`
+	Expr []*FEInnerAndExpression `@@ { "OR":Ident @@ }`
 }
 
 func (f *FEInnerExpression) String() string {
@@ -102,7 +104,7 @@ func (f *FEInnerExpression) OutputExpression() (Expression, error) {
 }
 
 type FEInnerAndExpression struct {
-	Expr []*FESubExprOrTerm `@@ { "AND" @@ }`
+	Expr []*FESubExprOrTerm `@@ { "AND":Ident @@ }`
 }
 
 func (f *FEInnerAndExpression) String() string {
@@ -132,7 +134,7 @@ func (f *FEInnerAndExpression) OutputExpression() (Expression, error) {
 }
 
 type FESubExprOrTerm struct {
-	SubExpr *FEInnerExpression `( "(" @@ ")" |`
+	SubExpr *FEInnerExpression `( "(":Punct @@ ")":Punct |`
 	Expr    *FECondition       `@@ )`
 }
 
@@ -157,7 +159,7 @@ func (f *FESubExprOrTerm) OutputExpression() (Expression, error) {
 }
 
 type FEAndConditionWrapper struct {
-	SubExpr *FEAndCondition `(  "(" @@ ")"  |`
+	SubExpr *FEAndCondition `(  "(":Punct @@ ")":Punct  |`
 	Expr    *FEAndCondition `@@ )`
 }
 
@@ -182,7 +184,7 @@ func (f *FEAndConditionWrapper) OutputExpression() (Expression, error) {
 }
 
 type FEAndCondition struct {
-	OrConditions []*FESubExprOrTerm `@@ { "AND" @@ }`
+	OrConditions []*FESubExprOrTerm `@@ { "AND":Ident @@ }`
 }
 
 func (ac *FEAndCondition) String() string {
@@ -214,7 +216,7 @@ func (f *FEAndCondition) OutputExpression() (Expression, error) {
 }
 
 type FECondition struct {
-	Not     *FECondition `"NOT" @@`
+	Not     *FECondition `"NOT":Ident @@`
 	Operand *FEOperand   `| @@`
 }
 
@@ -315,10 +317,10 @@ func (f *FEBooleanExpr) OutputExpression() (Expression, error) {
 }
 
 type FEBoolean struct {
-	TVal  *bool `@"TRUE" |`
-	TVal1 *bool `@"true" |`
-	FVal  *bool `@"FALSE" |`
-	FVal1 *bool `@"false"`
+	TVal  *bool `@"TRUE":Ident | @"TRUE":String |`
+	TVal1 *bool `@"true":Ident | @"true":String |`
+	FVal  *bool `@"FALSE":Ident | @"FALSE":String |`
+	FVal1 *bool `@"false":Ident | @"false":String`
 }
 
 func (feb *FEBoolean) String() string {
@@ -637,8 +639,8 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 }
 
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
-	Path    []*FEOnePath `@@ { "." @@ }`
+	MathNeg *bool        `{ @"-":Punct }`
+	Path    []*FEOnePath `@@ { ".":Punct @@ }`
 }
 
 func (fef *FEField) String() string {
@@ -736,7 +738,7 @@ func (f *FEOnePath) OutputOnePath() (string, []string, error) {
 type FEArrayIndex struct {
 	// For now we are not supporting negative indexes
 	// ArrayIndex string `"[" [ @"-" ] @Int "]"`
-	ArrayIndex string `"[" @Int "]"`
+	ArrayIndex string `"[":Punct @Int "]":Punct`
 }
 
 func (i *FEArrayIndex) String() string {
@@ -756,7 +758,7 @@ func (e *FEOnePathFuncExpr) String() string {
 }
 
 type FEOnePathFuncNoArg struct {
-	OnePathFuncNoArgName *FEOnePathFuncNoArgName `( @@ "(" ")" )`
+	OnePathFuncNoArgName *FEOnePathFuncNoArgName `( @@ "(":Punct ")":Punct )`
 }
 
 func (na *FEOnePathFuncNoArg) String() string {
@@ -768,7 +770,7 @@ func (na *FEOnePathFuncNoArg) String() string {
 }
 
 type FEOnePathFuncNoArgName struct {
-	Meta *bool `@"META"`
+	Meta *bool `@"META":Ident`
 }
 
 func (n *FEOnePathFuncNoArgName) String() string {
@@ -786,11 +788,11 @@ func (f *FEOnePathFuncNoArgName) OutputExpression() (Expression, error) {
 }
 
 type FEMathArithmeticOp struct {
-	Addition    *bool `@"+" |`
-	Subtraction *bool `@"-" |`
-	Multiply    *bool `@"*" |`
-	Division    *bool `@"/" |`
-	Modulo      *bool `@"%"`
+	Addition    *bool `@"+":Punct |`
+	Subtraction *bool `@"-":Punct |`
+	Multiply    *bool `@"*":Punct |`
+	Division    *bool `@"/":Punct |`
+	Modulo      *bool `@"%":Punct`
 }
 
 func (f *FEMathArithmeticOp) String() string {
@@ -826,7 +828,7 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 }
 
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
+	MathNeg    *bool    `{ @"-":Punct }`
 	IntValue   *int     `( @Int |`
 	FloatValue *float64 `@Float )`
 }
@@ -899,10 +901,10 @@ func (f *FEValue) OutputExpression() (Expression, error) {
 // and go to the other type of operands
 
 type FEOpChar struct {
-	Not         *bool `( @"!" |`
-	Equal       *bool `@"=" |`
-	LessThan    *bool `@"<" |`
-	GreaterThan *bool `@">" )`
+	Not         *bool `( @"!":Punct |`
+	Equal       *bool `@"=":Punct |`
+	LessThan    *bool `@"<":Punct |`
+	GreaterThan *bool `@">":Punct )`
 }
 
 func (f *FEOpChar) String() string {
@@ -1023,9 +1025,9 @@ func (f *FECompareOp) OutputExpression(lhs Expression, rhs Expression) (Expressi
 }
 
 type FECheckOp struct {
-	Not     *bool `( "IS" [ @"NOT" ]`
-	Null    *bool `( @"NULL" |`
-	Missing *bool `@"MISSING" ) )`
+	Not     *bool `( "IS":Ident [ @"NOT":Ident ]`
+	Null    *bool `( @"NULL":Ident |`
+	Missing *bool `@"MISSING":Ident ) )`
 }
 
 func (feco *FECheckOp) isNot() bool {
@@ -1099,7 +1101,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          *bool               `{ @"-":Punct }`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
@@ -1149,7 +1151,7 @@ func (f *FEConstFuncExpression) OutputExpression() (Expression, error) {
 }
 
 type FEConstFuncNoArg struct {
-	ConstFuncNoArgName *FEConstFuncNoArgName `( @@ "(" ")" )`
+	ConstFuncNoArgName *FEConstFuncNoArgName `( @@ "(":Punct ")":Punct )`
 }
 
 func (f *FEConstFuncNoArg) String() string {
@@ -1173,8 +1175,8 @@ func (f *FEConstFuncNoArg) OutputExpression() (Expression, error) {
 }
 
 type FEConstFuncNoArgName struct {
-	Pi *bool `@"PI" |` // FuncPi
-	E  *bool `@"E"`    // FuncE
+	Pi *bool `@"PI":Ident |` // FuncPi
+	E  *bool `@"E":Ident`    // FuncE
 }
 
 func (n *FEConstFuncNoArgName) String() string {
@@ -1259,8 +1261,8 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 }
 
 type FEConstFuncOneArg struct {
-	ConstFuncOneArgName *FEConstFuncOneArgName `( @@ "("`
-	Argument            *FEConstFuncArgument   `@@ ")" )`
+	ConstFuncOneArgName *FEConstFuncOneArgName `( @@ "(":Punct`
+	Argument            *FEConstFuncArgument   `@@ ")":Punct )`
 }
 
 func (oa *FEConstFuncOneArg) String() string {
@@ -1296,23 +1298,23 @@ func (f *FEConstFuncOneArg) OutputExpression() (Expression, error) {
 }
 
 type FEConstFuncOneArgName struct {
-	Abs     *bool `@"ABS" |`
-	Acos    *bool `@"ACOS" |`
-	Asin    *bool `@"ASIN" |`
-	Atan    *bool `@"ATAN" |`
-	Ceil    *bool `@"CEIL" |`
-	Cos     *bool `@"COS" |`
-	Date    *bool `@"DATE" |`
-	Degrees *bool `@"DEGREES" |`
-	Exp     *bool `@"EXP" |`
-	Floor   *bool `@"FLOOR" |`
-	Log     *bool `@"LOG" |`
-	Ln      *bool `@"LN" |`
-	Sine    *bool `@"SIN" |`
-	Tangent *bool `@"TAN" |`
-	Radians *bool `@"RADIANS" |`
-	Round   *bool `@"ROUND" |`
-	Sqrt    *bool `@"SQRT"`
+	Abs     *bool `@"ABS":Ident |`
+	Acos    *bool `@"ACOS":Ident |`
+	Asin    *bool `@"ASIN":Ident |`
+	Atan    *bool `@"ATAN":Ident |`
+	Ceil    *bool `@"CEIL":Ident |`
+	Cos     *bool `@"COS":Ident |`
+	Date    *bool `@"DATE":Ident |`
+	Degrees *bool `@"DEGREES":Ident |`
+	Exp     *bool `@"EXP":Ident |`
+	Floor   *bool `@"FLOOR":Ident |`
+	Log     *bool `@"LOG":Ident |`
+	Ln      *bool `@"LN":Ident |`
+	Sine    *bool `@"SIN":Ident |`
+	Tangent *bool `@"TAN":Ident |`
+	Radians *bool `@"RADIANS":Ident |`
+	Round   *bool `@"ROUND":Ident |`
+	Sqrt    *bool `@"SQRT":Ident`
 }
 
 func (arg *FEConstFuncOneArgName) String() string {
@@ -1396,9 +1398,9 @@ func (arg *FEConstFuncOneArgName) OutputExpression() (string, error) {
 }
 
 type FEConstFuncTwoArgs struct {
-	ConstFuncTwoArgsName *FEConstFuncTwoArgsName `( @@ "("`
-	Argument0            *FEConstFuncArgument    `@@ "," `
-	Argument1            *FEConstFuncArgument    `@@ ")" )`
+	ConstFuncTwoArgsName *FEConstFuncTwoArgsName `( @@ "(":Punct`
+	Argument0            *FEConstFuncArgument    `@@ ",":Punct `
+	Argument1            *FEConstFuncArgument    `@@ ")":Punct )`
 }
 
 func (fta *FEConstFuncTwoArgs) String() string {
@@ -1432,8 +1434,8 @@ func (f *FEConstFuncTwoArgs) OutputExpression() (Expression, error) {
 }
 
 type FEConstFuncTwoArgsName struct {
-	Atan2 *bool `@"ATAN2" |`
-	Power *bool `@"POW"`
+	Atan2 *bool `@"ATAN2":Ident |`
+	Power *bool `@"POW":Ident`
 }
 
 func (arg *FEConstFuncTwoArgsName) String() string {
@@ -1481,9 +1483,9 @@ func (f *FEBooleanFuncExpr) OutputExpression() (Expression, error) {
 }
 
 type FEBooleanFuncTwoArgs struct {
-	BooleanFuncTwoArgsName *FEBooleanFuncTwoArgsName `( @@ "("`
-	Argument0              *FEConstFuncArgument      `@@ ","`
-	Argument1              *FEConstFuncArgumentRHS   `@@ ")" )`
+	BooleanFuncTwoArgsName *FEBooleanFuncTwoArgsName `( @@ "(":Punct`
+	Argument0              *FEConstFuncArgument      `@@ ",":Punct`
+	Argument1              *FEConstFuncArgumentRHS   `@@ ")":Punct )`
 }
 
 func (a *FEBooleanFuncTwoArgs) String() string {
@@ -1522,7 +1524,7 @@ func (f *FEBooleanFuncTwoArgs) OutputExpression() (Expression, error) {
 }
 
 type FEBooleanFuncTwoArgsName struct {
-	RegexContains *bool `@"REGEXP_CONTAINS"`
+	RegexContains *bool `@"REGEXP_CONTAINS":Ident`
 }
 
 func (n *FEBooleanFuncTwoArgsName) String() string {
@@ -1542,7 +1544,7 @@ func (n *FEBooleanFuncTwoArgsName) OutputExpression() (Expression, error) {
 }
 
 type FEExistsClause struct {
-	Field *FEField `( "EXISTS" "(" @@ ")" )`
+	Field *FEField `( "EXISTS":Ident "(":Punct @@ ")":Punct )`
 }
 
 func (f *FEExistsClause) String() string {
@@ -1567,6 +1569,38 @@ func (f *FEExistsClause) OutputExpression() (Expression, error) {
 	return nil, fmt.Errorf("Invalid FEExistsClause %v", f.String())
 }
 
+// The type of the tokens that are a single operator or punctuation character. The grammar's literals name the type of
+// token they stand for, such that a quoted string or name is never taken for an operator or keyword it spells.
+const feTokenPunct rune = -1000
+
+type feLexerDefinition struct {
+	lexer.Definition
+}
+
+func (d feLexerDefinition) Symbols() map[string]rune {
+	symbols := d.Definition.Symbols()
+	symbols["Punct"] = feTokenPunct
+	return symbols
+}
+
+func (d feLexerDefinition) Lex(r io.Reader) (lexer.Lexer, error) {
+	l, err := d.Definition.Lex(r)
+	return feLexer{l}, err
+}
+
+type feLexer struct {
+	lexer.Lexer
+}
+
+func (l feLexer) Next() (lexer.Token, error) {
+	token, err := l.Lexer.Next()
+	// The other types of tokens are negative
+	if token.Type > 0 {
+		token.Type = feTokenPunct
+	}
+	return token, err
+}
+
 func parserWrapper(parser *participle.Parser, expression string, fe *FilterExpression, err *error) {
 	defer func() {
 		if r := recover(); r != nil {
@@ -1583,7 +1617,7 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe, participle.UseLookahead(2))
+	parser, err := participle.Build(fe, participle.UseLookahead(2), participle.Lexer(feLexerDefinition{lexer.TextScannerLexer}))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From 004b0dc4ec5fb2696ecaaa1b16483dfb5c0497c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:22 +0000
Subject: [PATCH 65/65] fix: a date constant whose day does not exist is
 refused instead of failing when it is compiled

---
 fastval_date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a93906f..9f16401 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -18,8 +18,8 @@ var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\d\d[- /.](
 var cbSampleDateFormat *regexp.Regexp = regexp.MustCompile(`^((19|20)\d\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])) +(([0-1][0-9]|[2][0-3]):[0-5][0-9]:[0-5][0-9])$`)
 
 func validTimeChecker(s string) bool {
-	_, err := time.Parse(time.RFC3339, s)
-	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
+	_, err := time.Parse(time.RFC3339, isoToRfc(s))
+	return err == nil
 }
 
 // dateSeparators turns the separators a date may be written with into the one RFC3339 has
-- 
2.43.0

