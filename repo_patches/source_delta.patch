From 19567275c0bb36fbddd7468d00acbd2126df8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 01/57] fix: nullable comparison tables for null operands, uint
 width and float inequality

---
 est/expr/ptr.go | 119 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 106 insertions(+), 13 deletions(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..0b6ed90 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -235,11 +239,11 @@ func compareIntLessOrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if yPtr == nil && xPtr == nil {
-			return est.FalseValuePtr
+			return est.TrueValuePtr
 		}
 
 		if xPtr != nil && yPtr == nil {
-			return est.TrueValuePtr
+			return est.FalseValuePtr
 		}
 
 		if yPtr != nil && xPtr == nil {
@@ -979,6 +983,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
@@ -1282,6 +1311,10 @@ func compareBoolNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.TrueValuePtr
 		}
@@ -1302,6 +1335,10 @@ func compareBoolEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1322,10 +1359,14 @@ func compareIntNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt := xunsafe.AsInt(xPtr)
 		yInt := xunsafe.AsInt(yPtr)
 
@@ -1342,10 +1383,14 @@ func compareUintNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint := xunsafe.AsUint(xPtr)
 		yUint := xunsafe.AsUint(yPtr)
 
@@ -1362,10 +1407,14 @@ func compareUint8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint8 := xunsafe.AsUint8(xPtr)
 		yUint8 := xunsafe.AsUint8(yPtr)
 
@@ -1382,10 +1431,14 @@ func compareInt8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt8 := xunsafe.AsInt8(xPtr)
 		yInt8 := xunsafe.AsInt8(yPtr)
 
@@ -1402,10 +1455,14 @@ func compareInt16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt16 := xunsafe.AsInt16(xPtr)
 		yInt16 := xunsafe.AsInt16(yPtr)
 
@@ -1422,10 +1479,14 @@ func compareUint16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint16 := xunsafe.AsUint16(xPtr)
 		yUint16 := xunsafe.AsUint16(yPtr)
 
@@ -1442,10 +1503,14 @@ func compareInt32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt32 := xunsafe.AsInt32(xPtr)
 		yInt32 := xunsafe.AsInt32(yPtr)
 
@@ -1462,10 +1527,14 @@ func compareUint32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint32 := xunsafe.AsUint32(xPtr)
 		yUint32 := xunsafe.AsUint32(yPtr)
 
@@ -1582,6 +1651,10 @@ func compareIntPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1602,6 +1675,10 @@ func compareUintPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1622,6 +1699,10 @@ func compareFloat32PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1642,6 +1723,10 @@ func compareFloat64PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if yPtr == nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1662,10 +1747,14 @@ func compareFloat32PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xVal := xunsafe.AsFloat32(xPtr)
 		yVal := xunsafe.AsFloat32(yPtr)
 
@@ -1682,10 +1771,14 @@ func compareFloat64PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if yPtr == nil && xPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xVal := xunsafe.AsFloat64(xPtr)
 		yVal := xunsafe.AsFloat64(yPtr)
 
-- 
2.43.0


From a7bc4e8b31942bf84702089790cc7fff792cb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 02/57] fix: integer equality no longer prints its operands to
 stdout

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From d8fca88df7497ba944e8a097c5a99a280ab58af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 03/57] fix: assigning to nested bool and float32 fields stores
 the assigned value

---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 55848004d5fd1dac103643b8e2ebc377881185ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 04/57] fix: assignment converts literal and computed values to
 the target type

---
 est/stmt/assign/bool.go   | 4 ++--
 est/stmt/assign/float.go  | 4 ++--
 est/stmt/assign/int.go    | 4 ++--
 est/stmt/assign/string.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..024c05b 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..6790bea 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..4bf144d 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,14 +19,14 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.y.Exec(state))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.y.Exec(state))
 	return ret
 }
 
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..47ba31f 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.y.Exec(state))
 	return ret
 }
-- 
2.43.0


From 78d3a9443bd506575afa37749e299c409a651b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 05/57] fix: binary operands are evaluated in the unified type
 of both sides

---
 binary.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/binary.go b/binary.go
index bf02779..84e1a79 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,8 @@
 package velty
 
 import (
+	"fmt"
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -19,15 +21,27 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	unify, err := unifyOperands(x, y)
 	if err != nil {
 		return nil, err
 	}
 
+	nullable := isPtr(x.Type) || isPtr(y.Type)
+	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
+	comparison := isComparison(actual.Token)
+	if comparison && x.Type != nil {
+		resultType = reflect.TypeOf(true)
+	}
+
 	x.Unify = unify.X
 	y.Unify = unify.Y
+	if x.Type != nil && (comparison || !isPtr(x.Type)) {
+		x.Type = unify.RType
+		if nullable && comparison {
+			x.Type = reflect.PtrTo(unify.RType)
+		}
+	}
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -42,6 +56,41 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+//unifyOperands returns conversion of both operands to the common type
+func unifyOperands(x, y *op.Expression) (*types.Unified, error) {
+	if x.Type == nil {
+		return &types.Unified{RType: types.NormalizeType(y.Type)}, nil
+	}
+
+	if y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine right operand type")
+	}
+
+	normalized := types.NormalizeType(x.Type)
+	if x.Type != y.Type || x.Type == normalized {
+		return types.NormalizeAndUnify(x.Type, y.Type)
+	}
+
+	unify, err := types.New(normalized, x.Type)
+	if err != nil {
+		return nil, err
+	}
+	unify.X = unify.Y
+	return unify, nil
+}
+
+func isComparison(token ast.Token) bool {
+	switch token {
+	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
+		return true
+	}
+	return false
+}
+
+func isPtr(rType reflect.Type) bool {
+	return rType != nil && rType.Kind() == reflect.Ptr
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
-- 
2.43.0


From cff7da5dc2a78cd974ae3707a321bfd3c68b7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 06/57] fix: strings.HasPrefix tests the prefix

---
 functions/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..09fbf14 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -22,7 +22,7 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 }
 
 func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+	return strings.HasPrefix(val, suffix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From ec09905b28e347a43c827a61c0aabc1101b69db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 07/57] fix: evaluate cache is read under its lock and stays
 within its size

---
 cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index c4aa426..7ad8aba 100644
--- a/cache.go
+++ b/cache.go
@@ -28,6 +28,9 @@ func newCache(cacheSize int) *cache {
 }
 
 func (c *cache) expression(name string) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
 	val, ok := c.cache[name]
 	if !ok {
 		return nil, false
@@ -53,7 +56,7 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 }
 
 func (c *cache) cleanCacheIfNeeded() {
-	if len(c.cache) > c.cacheSize {
+	if len(c.cache) >= c.cacheSize {
 		c.cache = map[string]int{}
 		c.values = c.values[:0]
 	}
-- 
2.43.0


From 6c2c78f3c1c37f0b4078a5ae25c342c336a5aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 08/57] fix: appending a byte to an empty buffer grows it

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From 243fc2ed7501b8f5a66e64328132fb0866f617a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 09/57] fix: evaluate reports parse, compile and runtime errors
 of the evaluated template

---
 evaluate.go | 12 ++++++++++--
 planner.go  |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index 9a4882f..6fb5b33 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -18,24 +18,32 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
 	if cacheValue, ok := e.cache.expression(varValue); ok {
 		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+		return e.execute(cacheValue.compute, newState, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
 	if err != nil {
+		state.AddError(err)
 		return est.EmptyStringPtr
 	}
 
 	evaluatorPlanner := e.parent.New()
 	exec, err := evaluatorPlanner.newCompute(block)
 	if err != nil {
+		state.AddError(err)
 		return est.EmptyStringPtr
 	}
 
 	newState := e.newState(evaluatorPlanner, state)
 	e.cache.put(varValue, evaluatorPlanner, exec)
 
-	return exec(newState)
+	return e.execute(exec, newState, state)
+}
+
+func (e *evaluator) execute(compute est.Compute, newState, state *est.State) unsafe.Pointer {
+	result := compute(newState)
+	state.Errors = append(state.Errors, newState.Errors...)
+	return result
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
diff --git a/planner.go b/planner.go
index 68b0354..510dc8e 100644
--- a/planner.go
+++ b/planner.go
@@ -457,6 +457,7 @@ func (p *Planner) New() *Planner {
 		cache:      p.cache,
 		escapeHTML: p.escapeHTML,
 	}
+	scope.panicOnError = p.panicOnError
 
 	return scope
 }
-- 
2.43.0


From e73df4c1677dcd322d94891fa09d9011ecbd9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 10/57] fix: slice index is converted to an integer and
 negative indexes are rejected

---
 est/op/selector.go | 2 +-
 est/op/slice.go    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..7a3b65c 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -114,7 +114,7 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
+	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
 	}
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..44863dc 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -23,8 +23,15 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
+	if s.ToInter != nil {
+		var err error
+		if indexPtr, err = s.ToInter(indexPtr); err != nil || indexPtr == nil {
+			return nil
+		}
+	}
+
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
+	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-- 
2.43.0


From 636e3f5d13be64f292fa23d9287375c85e374f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 11/57] fix: evaluate rejects expressions that are not strings

---
 evaluate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evaluate.go b/evaluate.go
index 6fb5b33..8b816a5 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -1,9 +1,11 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"reflect"
 	"unsafe"
 )
 
@@ -58,6 +60,10 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 }
 
 func evaluate(expr *op.Expression, cache *cache, parent *Planner) (est.New, error) {
+	if expr.Type == nil || expr.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported #evaluate expression type: %v", expr.Type)
+	}
+
 	return func(control est.Control) (est.Compute, error) {
 		x, err := expr.Operand(control)
 		if err != nil {
-- 
2.43.0


From 72483724a1216b15711a72686a262ff5f8cdff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 12/57] fix: nullable operands of one kind are compared at
 their own width

---
 binary.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/binary.go b/binary.go
index 84e1a79..c475a17 100644
--- a/binary.go
+++ b/binary.go
@@ -21,14 +21,14 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
-	unify, err := unifyOperands(x, y)
+	comparison := isComparison(actual.Token)
+	unify, err := unifyOperands(x, y, comparison)
 	if err != nil {
 		return nil, err
 	}
 
 	nullable := isPtr(x.Type) || isPtr(y.Type)
 	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
-	comparison := isComparison(actual.Token)
 	if comparison && x.Type != nil {
 		resultType = reflect.TypeOf(true)
 	}
@@ -57,7 +57,7 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 }
 
 //unifyOperands returns conversion of both operands to the common type
-func unifyOperands(x, y *op.Expression) (*types.Unified, error) {
+func unifyOperands(x, y *op.Expression, comparison bool) (*types.Unified, error) {
 	if x.Type == nil {
 		return &types.Unified{RType: types.NormalizeType(y.Type)}, nil
 	}
@@ -71,6 +71,10 @@ func unifyOperands(x, y *op.Expression) (*types.Unified, error) {
 		return types.NormalizeAndUnify(x.Type, y.Type)
 	}
 
+	if comparison && isPtr(x.Type) {
+		normalized = x.Type.Elem()
+	}
+
 	unify, err := types.New(normalized, x.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b1283fcbfaea619670ee0115aad57442d91dac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 13/57] fix: text in front of a comment is kept and $# does not
 start a comment

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From 42a4d4b7aa59f19e4347a36b7da568be9b090301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 14/57] fix: operators follow precedence and left
 associativity, groups keep the operators next to them

---
 ast/expr/binary.go | 34 ++++++++++++++++++++++++++++++++
 binary.go          |  1 +
 parser/expr.go     | 13 +------------
 parser/operand.go  | 48 ++++++----------------------------------------
 4 files changed, 42 insertions(+), 54 deletions(-)

diff --git a/ast/expr/binary.go b/ast/expr/binary.go
index 3956e6f..c58d70a 100644
--- a/ast/expr/binary.go
+++ b/ast/expr/binary.go
@@ -32,3 +32,37 @@ func BinaryExpression(left ast2.Expression, token ast2.Token, right ast2.Express
 		Y:     right,
 	}
 }
+
+//LeftAssociative returns the expression grouped by operator precedence, operators of the same precedence are grouped
+//from left to right. The parser groups operands without parentheses from right to left.
+func (b *Binary) LeftAssociative() *Binary {
+	if y, ok := b.Y.(*Binary); ok {
+		return apply(b.X, b.Token, y.LeftAssociative())
+	}
+
+	return b
+}
+
+//apply applies token to x and the leftmost operand of y that doesn't bind tighter than token
+func apply(x ast2.Expression, token ast2.Token, y ast2.Expression) *Binary {
+	if right, ok := y.(*Binary); ok && precedence(right.Token) <= precedence(token) {
+		return BinaryExpression(apply(x, token, right.X), right.Token, right.Y)
+	}
+
+	return BinaryExpression(x, token, y)
+}
+
+func precedence(token ast2.Token) int {
+	switch token {
+	case ast2.MUL, ast2.QUO:
+		return 5
+	case ast2.ADD, ast2.SUB:
+		return 4
+	case ast2.AND:
+		return 2
+	case ast2.OR:
+		return 1
+	}
+
+	return 3
+}
diff --git a/binary.go b/binary.go
index c475a17..75f6cf9 100644
--- a/binary.go
+++ b/binary.go
@@ -11,6 +11,7 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = actual.LeftAssociative()
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
diff --git a/parser/expr.go b/parser/expr.go
index db55394..0600348 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,9 +14,6 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
@@ -27,15 +24,7 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..84cbab1 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -32,16 +32,9 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
+		matcher = token
+		expression = &aexpr.Parentheses{P: expr}
 
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -123,8 +116,11 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 
 		var rightExpression ast2.Expression
 		if err == nil {
-			rightExpression, err = matchEquationExpression(eprCursor)
+			if rightExpression, err = matchEquationExpression(eprCursor); err != nil {
+				return err
+			}
 			rightExpression = &aexpr.Parentheses{P: rightExpression}
+			err = addEquationIfNeeded(cursor, &rightExpression)
 		} else {
 			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
 		}
@@ -132,17 +128,6 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
-
 		*expression = &aexpr.Binary{
 			X:     *expression,
 			Token: token,
@@ -150,24 +135,3 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		}
 	}
 }
-
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
-	}
-
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
-}
-- 
2.43.0


From 70f9bfe72969e543f7e509ad316a3f2ba436b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 15/57] fix: compound assignment operators of for loops are
 applied to the loop variable

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  6 +++---
 parser/token.go | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..d24adc9 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -96,13 +96,13 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		}, nil
 	}
 
-	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	token, code := matchToken(matched), matched.Code //cursor reuses matched
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, code)
 
 	return &stmt.Statement{
 		X:  variable,
diff --git a/parser/token.go b/parser/token.go
index dbd006d..fcdf992 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -6,20 +6,20 @@ import (
 	"github.com/viant/velty/ast/expr"
 )
 
-func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matched *parsly.TokenMatch) (ast2.Token, ast2.Expression) {
-	switch matched.Code {
+func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, code int) (ast2.Token, ast2.Expression) {
+	switch code {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.MUL, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.MUL, &expr.Parentheses{P: rightOperand})
 	case quoEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.QUO, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.QUO, &expr.Parentheses{P: rightOperand})
 	case addEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.ADD, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.ADD, &expr.Parentheses{P: rightOperand})
 	case subEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.SUB, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.SUB, &expr.Parentheses{P: rightOperand})
 	}
 
 	return token, rightOperand
-- 
2.43.0


From 351d88df955ae79af2de8e3d9b4db243605f53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 16/57] fix: a dot that doesn't start a selector is text

---
 parser/select.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser/select.go b/parser/select.go
index acc1435..4a90b49 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
+	"github.com/viant/velty/parser/matcher"
 	"strconv"
 	"strings"
 )
@@ -107,9 +108,14 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 
 func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	candidates := []*parsly.Token{Parentheses, Dot, SquareBrackets}
+	start := cursor.Pos
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
+		if !isSelectorStart(cursor) { //dot that ends a sentence
+			cursor.Pos = start
+			return nil, nil
+		}
 		return MatchSelector(cursor)
 	case parenthesesToken:
 		id := matched.Text(cursor)
@@ -198,3 +204,12 @@ func extractArgument(cursor *parsly.Cursor) *parsly.Cursor {
 
 	return cursor
 }
+
+func isSelectorStart(cursor *parsly.Cursor) bool {
+	if cursor.Pos >= cursor.InputSize {
+		return false
+	}
+
+	next := cursor.Input[cursor.Pos]
+	return next == '!' || next == '{' || matcher.IsLetter(next)
+}
-- 
2.43.0


From e29106addf86bc6e00b67cd43ab9eb938e0b6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 17/57] fix: number literal with upper case exponent is a float

---
 ast/expr/literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/expr/literal.go b/ast/expr/literal.go
index 4f36b5b..8f4c26b 100644
--- a/ast/expr/literal.go
+++ b/ast/expr/literal.go
@@ -27,7 +27,7 @@ func StringLiteral(value string) *Literal {
 //NumberLiteral creates number literal
 func NumberLiteral(value string) *Literal {
 	numType := reflect.TypeOf(0.0)
-	if !(strings.Contains(value, ".") || strings.Contains(value, "e")) {
+	if !(strings.Contains(value, ".") || strings.ContainsAny(value, "eE")) {
 		numType = reflect.TypeOf(0)
 	}
 	return &Literal{
-- 
2.43.0


From 7db30b8ba7794ba94b3d49f59829e6b4fe45ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 18/57] fix: string literal is a selector only when nothing
 follows the selector

---
 parser/operand.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/operand.go b/parser/operand.go
index 84cbab1..e915f04 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	ast2 "github.com/viant/velty/ast"
 	aexpr "github.com/viant/velty/ast/expr"
+	"strings"
 )
 
 var dataTypeMatchers = []*parsly.Token{String, Boolean, Number}
@@ -69,15 +70,13 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			matcher = String
 			expression = aexpr.StringLiteral("")
 		} else {
-			newCursor := parsly.NewCursor("", []byte(value[:len(value)-1]), 0)
+			value = value[:len(value)-1]
+			newCursor := parsly.NewCursor("", []byte(value), 0)
 
 			matcher, expression, err = matchOperand(newCursor, candidates...)
-			if err != nil {
-				expression = aexpr.StringLiteral(value[:len(value)-1])
-			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
-					expression = aexpr.StringLiteral(value[:len(value)-1])
-				}
+			_, isSelect := expression.(*aexpr.Select)
+			if err != nil || !isSelect || newCursor.Pos < newCursor.InputSize || strings.TrimSpace(value) != value {
+				expression = aexpr.StringLiteral(value)
 			}
 		}
 
-- 
2.43.0


From 200e92f139422903b9872dde5c9d22d1ba045bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 19/57] fix: operators on undefined operands do not compile

---
 binary.go | 6 +++---
 unary.go  | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/binary.go b/binary.go
index 75f6cf9..9632886 100644
--- a/binary.go
+++ b/binary.go
@@ -30,13 +30,13 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 
 	nullable := isPtr(x.Type) || isPtr(y.Type)
 	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
-	if comparison && x.Type != nil {
+	if comparison {
 		resultType = reflect.TypeOf(true)
 	}
 
 	x.Unify = unify.X
 	y.Unify = unify.Y
-	if x.Type != nil && (comparison || !isPtr(x.Type)) {
+	if comparison || !isPtr(x.Type) {
 		x.Type = unify.RType
 		if nullable && comparison {
 			x.Type = reflect.PtrTo(unify.RType)
@@ -60,7 +60,7 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 //unifyOperands returns conversion of both operands to the common type
 func unifyOperands(x, y *op.Expression, comparison bool) (*types.Unified, error) {
 	if x.Type == nil {
-		return &types.Unified{RType: types.NormalizeType(y.Type)}, nil
+		return nil, fmt.Errorf("couldn't determine left operand type")
 	}
 
 	if y.Type == nil {
diff --git a/unary.go b/unary.go
index 1f67680..05965cb 100644
--- a/unary.go
+++ b/unary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	aexpr "github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -12,6 +13,10 @@ func (p *Planner) compileUnary(actual *aexpr.Unary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil {
+		return nil, fmt.Errorf("couldn't determine unary operand type")
+	}
+
 	acc := p.accumulator(x.Type)
 
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
-- 
2.43.0


From 3a80cd21b41ec03b382184d26692c57d4d10ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 20/57] fix: fields of the same type are selectable and self
 referencing variables terminate

---
 cyclic.go  | 64 ++++++------------------------------------------------
 planner.go | 16 +++++---------
 2 files changed, 13 insertions(+), 67 deletions(-)

diff --git a/cyclic.go b/cyclic.go
index a4c1480..c46ab84 100644
--- a/cyclic.go
+++ b/cyclic.go
@@ -8,78 +8,28 @@ import (
 type (
 	CycleDetector struct {
 		rType          reflect.Type
-		allTypes       map[reflect.Type]*MultiCycleDetector
 		parent         *CycleDetector
 		parentSelector *op.Selector
 		name           string
 	}
-
-	MultiCycleDetector struct {
-		index    map[reflect.Type]int
-		children []*CycleDetector
-	}
 )
 
+//NewCycleDetector creates a detector for the variable of given type, the variable type is added by the first Child call
 func NewCycleDetector(rType reflect.Type) *CycleDetector {
-	return newCycleDetector(nil, nil, rType, nil)
+	return &CycleDetector{name: rType.String()}
 }
 
-func newCycleDetector(parent *CycleDetector, state map[reflect.Type]*MultiCycleDetector, rType reflect.Type, parentSelector *op.Selector) *CycleDetector {
-	if state == nil {
-		state = map[reflect.Type]*MultiCycleDetector{}
-	}
-
+//Child returns detector of the field with given type, and true if any of the field holders is of the same struct type
+func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
 	rType, _ = elemIfNeeded(rType)
-	return &CycleDetector{
-		allTypes:       state,
-		parent:         parent,
+	next = &CycleDetector{
+		parent:         c,
 		rType:          rType,
 		parentSelector: parentSelector,
 		name:           rType.String(),
 	}
-}
-
-func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
-	cycle := c.getChildrenCycleHolder(rType)
-	return cycle.Get(c, rType, parentSelector)
-}
-
-func (d *MultiCycleDetector) Get(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (*CycleDetector, bool) {
-	detector, parent := d.getOrCreate(c, rType, parentSelector)
-
-	return detector, parent != nil
-}
-
-func (d *MultiCycleDetector) getOrCreate(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (current *CycleDetector, parent *CycleDetector) {
-	i, ok := d.index[rType]
-	if ok {
-		next := d.children[i]
-		if next.Has(next) {
-			return c, next
-		}
-
-		return next, nil
-	}
-
-	detector := newCycleDetector(c, c.allTypes, rType, parentSelector)
-	d.index[rType] = len(d.children)
-	d.children = append(d.children, detector)
-
-	return detector, nil
-}
-
-func (c *CycleDetector) getChildrenCycleHolder(rType reflect.Type) *MultiCycleDetector {
-	cycle, ok := c.allTypes[rType]
-	if ok {
-		return cycle
-	}
-
-	cycle = &MultiCycleDetector{
-		index: map[reflect.Type]int{},
-	}
 
-	c.allTypes[rType] = cycle
-	return cycle
+	return next, rType.Kind() == reflect.Struct && c.Has(next)
 }
 
 func (c *CycleDetector) Has(parent *CycleDetector) bool {
diff --git a/planner.go b/planner.go
index 510dc8e..04786a0 100644
--- a/planner.go
+++ b/planner.go
@@ -56,7 +56,11 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
+	cycleNode, hasCycle := cycleDetector.Child(field.Type, parent)
+	var cycleSelector *op.Selector
+	if hasCycle {
+		cycleSelector = parent
+	}
 
 	if field.Anonymous {
 		initialOffset += field.Offset
@@ -66,7 +70,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	vTag := Parse(field.Tag.Get(velty))
 
 	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	if err != nil || hasCycle {
 		return err
 	}
 
@@ -93,14 +97,6 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
 }
 
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
-	}
-	return child, nil
-}
-
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
 	rType, elemed := elemIfNeeded(field.Type)
 	if rType.Kind() == reflect.Struct {
-- 
2.43.0


From 0eb9c7fe70a90f3208982c657f5d13484ace4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 21/57] fix: computed if and for conditions are tested by their
 own type

---
 est/stmt/for.go | 2 +-
 est/stmt/if.go  | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..a633d74 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..ebb4104 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -71,12 +71,8 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
-		rType = reflect.TypeOf(true)
-	}
-
 	if rType == nil {
-		return nil, fmt.Errorf("couldn't determine type of the %v\n", condition.Selector.Name)
+		return nil, fmt.Errorf("couldn't determine type of the condition operand")
 	}
 
 	unify, err := converter.Unify(reflect.TypeOf(true), rType)
@@ -151,7 +147,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		}
 
 	default:
-		return nil, fmt.Errorf("unsupported comparable type %v", condition.Type.Kind())
+		return nil, fmt.Errorf("unsupported comparable type %v", rType.Kind())
 	}
 
 	return newOperand, nil
-- 
2.43.0


From b5b981d891381ccd889af74deb5843aeec24908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 22/57] fix: null pointer and empty slice conditions are false

---
 est/stmt/if.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index ebb4104..07ad078 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -85,8 +85,8 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
-		newOperand.SetUnifier(unify.Y)
+	if unify.Y != nil && rType.Kind() != reflect.Slice {
+		anOperand.SetUnifier(unify.Y)
 		rType = reflect.TypeOf(true)
 	}
 
@@ -142,8 +142,10 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 
 	case reflect.Bool:
 		newOperand.Comp = func(state *est.State) unsafe.Pointer {
-			anPtr := anOperand.Exec(state)
-			return anPtr
+			if anPtr := anOperand.Exec(state); anPtr != nil {
+				return anPtr
+			}
+			return est.FalseValuePtr
 		}
 
 	default:
-- 
2.43.0


From 40739a7b40a7701e82fe8c26c18d09c5af706499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 23/57] fix: value of a path through null is not shared

---
 est/op/upstream.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..9add649 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -28,21 +28,8 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 	parents[len(parents)-1] = selector
 	parentLen := len(parents)
 
-	var zeroValuePtr unsafe.Pointer
-	var value interface{}
-
-	switch selector.Type.Kind() {
-	case reflect.Bool:
-		zeroValuePtr = est.FalseValuePtr
-	case reflect.String:
-		zeroValuePtr = est.EmptyStringPtr
-	case reflect.Int:
-		zeroValuePtr = est.ZeroIntPtr
-	case reflect.Float64:
-		zeroValuePtr = est.ZeroFloatPtr
-	default:
-		value = reflect.New(selector.Type).Interface()
-		zeroValuePtr = xunsafe.AsPointer(value)
+	newZeroValue := func() unsafe.Pointer { //caller may write to it, it can't be shared
+		return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
 	}
 
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
@@ -50,7 +37,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return newZeroValue()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +79,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return newZeroValue()
 			}
 		}
 
-- 
2.43.0


From ef2fbcc7949be4dc43b7bba743eb4b00d34db985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 24/57] fix: literals out of range are reported

---
 literal.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/literal.go b/literal.go
index c023802..7c23f1f 100644
--- a/literal.go
+++ b/literal.go
@@ -13,20 +13,32 @@ func (p *Planner) literalExpr(literal *expr.Literal) (*op.Expression, error) {
 	expr := &op.Expression{}
 	switch literal.RType.Kind() {
 	case reflect.Int:
-		i, _ := strconv.Atoi(literal.Value)
+		i, err := strconv.Atoi(literal.Value)
+		if err != nil {
+			return nil, err
+		}
+
 		iPtr := &i
 		p.constants.add(iPtr)
 		ptr := unsafe.Pointer(iPtr)
 		expr.Type = reflect.TypeOf(i)
 		expr.LiteralPtr = &ptr
 	case reflect.Float64:
-		f, _ := strconv.ParseFloat(literal.Value, 64)
+		f, err := strconv.ParseFloat(literal.Value, 64)
+		if err != nil {
+			return nil, err
+		}
+
 		p.constants.add(&f)
 		expr.Type = reflect.TypeOf(f)
 		ptr := unsafe.Pointer(&f)
 		expr.LiteralPtr = &ptr
 	case reflect.Bool:
-		b, _ := strconv.ParseBool(literal.Value)
+		b, err := strconv.ParseBool(literal.Value)
+		if err != nil {
+			return nil, err
+		}
+
 		p.constants.add(&b)
 		expr.Type = reflect.TypeOf(b)
 		ptr := unsafe.Pointer(&b)
-- 
2.43.0


From 5fa1fb5085b39c337efd85f4872b20fff3140668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 25/57] fix: index of a nested field is applied to the field

---
 planner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner.go b/planner.go
index 04786a0..15df556 100644
--- a/planner.go
+++ b/planner.go
@@ -245,8 +245,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if methodCall, ok := actual.X.(*expr.Call); ok {
+			if callSelector, callNext, callErr := p.tryMatchCall(methodCall, resultSelector, actual.ID); callSelector != nil || callErr != nil {
+				return callSelector, callNext, callErr
+			}
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
-- 
2.43.0


From ddb623088ead0395d1a83c281e3c942e83dc89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 26/57] fix: selecting a field of a type without fields doesn't
 compile

---
 planner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner.go b/planner.go
index 15df556..174c610 100644
--- a/planner.go
+++ b/planner.go
@@ -270,6 +270,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
-- 
2.43.0


From cadb939edd5b8a923f52800185a121d95b673de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 27/57] fix: foreach variable of another type does not compile

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d1acd6..1b90f14 100644
--- a/stmt.go
+++ b/stmt.go
@@ -136,6 +136,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if !itemType.AssignableTo(selector.Type) {
+		return nil, fmt.Errorf("unable to assign %v to %v of type %v", itemType, actual.Item.ID, selector.Type)
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a9c2d9872fcdb0877f8e08fd6a6256f012f4d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 28/57] fix: IndexBy normalizes the indexed field value

---
 functions/slices.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index 9332897..a59cf09 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,9 +130,11 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			key := reflect.Zero(xreflect.InterfaceType)
+			if normalized := keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue))); normalized != nil {
+				key = reflect.ValueOf(normalized)
+			}
+			resultMap.SetMapIndex(key, reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
-- 
2.43.0


From fc57cbb27f2e4d235aff5c5314f14e70bdb72bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 29/57] fix: single character function arguments are not
 dropped

---
 parser/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index 4a90b49..2c0b01f 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -180,7 +180,7 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for strings.TrimSpace(string(cursor.Input[cursor.Pos:])) != "" {
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 6b59aa96be8910139dcb8c62b54d54b1e02eb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 30/57] fix: methods of types with the same name are not mixed
 up

---
 est/op/func.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..361cb3c 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -28,7 +28,7 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
 	}
@@ -281,7 +281,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -436,7 +436,7 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
 	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -879,7 +879,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -890,14 +890,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 1893af7483e1da958b350a5889f139de32750e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 31/57] fix: function arguments of wrong number or type are
 reported as template errors

---
 est/op/func.go | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 361cb3c..cc873f0 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -165,32 +165,32 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 
 	switch len(operands) {
 	case 0:
-		return caller.Call([]reflect.Value{}), nil
+		return call(caller, []reflect.Value{})
 	case 1:
-		return caller.Call([]reflect.Value{
+		return call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
+		})
 
 	case 2:
-		return caller.Call([]reflect.Value{
+		return call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
+		})
 
 	case 3:
-		return caller.Call([]reflect.Value{
+		return call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
+		})
 
 	case 4:
-		return caller.Call([]reflect.Value{
+		return call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
 			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+		})
 
 	default:
 		values := make([]reflect.Value, 0, len(operands))
@@ -203,10 +203,38 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 			values = append(values, f.ensureValue(anInterface, operands[i].Type))
 		}
 
-		return caller.Call(values), nil
+		return call(caller, values)
 	}
 }
 
+//call calls function if it accepts given arguments
+func call(caller reflect.Value, args []reflect.Value) ([]reflect.Value, error) {
+	fType := caller.Type()
+	required := fType.NumIn()
+	if fType.IsVariadic() {
+		required--
+	}
+
+	if len(args) < required {
+		return nil, fmt.Errorf("too few function arguments: expected: %v, had: %v", required, len(args))
+	}
+
+	for i, arg := range args {
+		var paramType reflect.Type
+		if i < required {
+			paramType = fType.In(i)
+		} else {
+			paramType = fType.In(required).Elem()
+		}
+
+		if !arg.Type().AssignableTo(paramType) {
+			return nil, fmt.Errorf("unable to use %v as %v in function argument %v", arg.Type(), paramType, i)
+		}
+	}
+
+	return caller.Call(args), nil
+}
+
 func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Value {
 	if anInterface == nil {
 		return reflect.Zero(t)
-- 
2.43.0


From 89f405687af13231dfb1c97d8a371a5888116246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 32/57] fix: typed functions called with operands of other
 types do not compile

---
 est/op/func.go | 21 +++++++++++++++++++++
 planner.go     |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index cc873f0..cebec37 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -50,6 +50,7 @@ type (
 		isVariadic  bool
 		iFaceMethod bool
 		caller      reflect.Value
+		signature   reflect.Type
 	}
 
 	Function struct {
@@ -103,6 +104,25 @@ func (r *funcReceiver) aFunc(id string) (*Func, bool) {
 	return r.funcs[i], true
 }
 
+//Validate checks if a function that reads operands directly can be called with given operands
+func (f *Func) Validate(operands []*Operand) error {
+	if f.signature == nil {
+		return nil
+	}
+
+	if len(operands) != f.signature.NumIn() {
+		return fmt.Errorf("function %v expected %v arguments, but had %v", f.Name, f.signature.NumIn(), len(operands))
+	}
+
+	for i, operand := range operands {
+		if operand.Type != f.signature.In(i) {
+			return fmt.Errorf("function %v expected argument %v to be %v, but was %v", f.Name, i, f.signature.In(i), operand.Type)
+		}
+	}
+
+	return nil
+}
+
 func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.State) unsafe.Pointer {
 	anIface, err := f.Function(operands, state)
 	if err != nil {
@@ -333,6 +353,7 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
+			signature:  reflect.TypeOf(function),
 		}, nil
 	}
 
diff --git a/planner.go b/planner.go
index 174c610..ee45d0f 100644
--- a/planner.go
+++ b/planner.go
@@ -375,6 +375,10 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 		return nil, err
 	}
 
+	if err = aFunc.Validate(operands); err != nil {
+		return nil, err
+	}
+
 	accumulator := p.accumulator(aFunc.ResultType)
 	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
 	newSelector.Args = operands
-- 
2.43.0


From fb137d4bb68e2b1562f908744f9a08a5d7a9f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 33/57] fix: compile errors of function calls are reported

---
 planner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/planner.go b/planner.go
index ee45d0f..0a5cc53 100644
--- a/planner.go
+++ b/planner.go
@@ -223,6 +223,12 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 		return opSelector, next, nil
 	}
 
+	if err != nil {
+		if _, funcErr := p.Func(nil, selector.ID, nil); funcErr == nil { //function exists, but the call is invalid
+			return nil, nil, err
+		}
+	}
+
 	resultSelector := p.selectorByName(selector.ID)
 	if resultSelector != nil {
 		return resultSelector, selector.X, nil
-- 
2.43.0


From 7b87cac7aee0670dc8167ec1a153aeaee830ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 34/57] fix: type precedence of binary operands does not depend
 on nullability

---
 binary.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 9632886..6f99f95 100644
--- a/binary.go
+++ b/binary.go
@@ -68,10 +68,14 @@ func unifyOperands(x, y *op.Expression, comparison bool) (*types.Unified, error)
 	}
 
 	normalized := types.NormalizeType(x.Type)
-	if x.Type != y.Type || x.Type == normalized {
+	if (x.Type == y.Type && x.Type == normalized) || (!isPtr(x.Type) && !isPtr(y.Type) && x.Type != y.Type) {
 		return types.NormalizeAndUnify(x.Type, y.Type)
 	}
 
+	if x.Type != y.Type { //precedence of types does not depend on whether a value is nullable
+		return unifyNullable(x.Type, y.Type)
+	}
+
 	if comparison && isPtr(x.Type) {
 		normalized = x.Type.Elem()
 	}
@@ -84,6 +88,34 @@ func unifyOperands(x, y *op.Expression, comparison bool) (*types.Unified, error)
 	return unify, nil
 }
 
+func unifyNullable(x, y reflect.Type) (*types.Unified, error) {
+	common, err := types.NormalizeAndUnify(notNullable(x), notNullable(y))
+	if err != nil {
+		return nil, err
+	}
+
+	resultType := types.NormalizeType(common.RType)
+	xUnify, err := types.New(resultType, x)
+	if err != nil {
+		return nil, err
+	}
+
+	yUnify, err := types.New(resultType, y)
+	if err != nil {
+		return nil, err
+	}
+
+	return &types.Unified{X: xUnify.Y, Y: yUnify.Y, RType: resultType}, nil
+}
+
+func notNullable(rType reflect.Type) reflect.Type {
+	if isPtr(rType) {
+		return rType.Elem()
+	}
+
+	return rType
+}
+
 func isComparison(token ast.Token) bool {
 	switch token {
 	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
-- 
2.43.0


From d1a933239bff2a2085a7f185faa62f08d0aba090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 35/57] fix: failed conversion of an operand is reported as
 template error

---
 est/op/operand.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..f5a2aa1 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -14,20 +14,27 @@ type Operand struct {
 	Comp       est.Compute
 	Type       reflect.Type
 	XType      *xunsafe.Type
-	unify      func(pointer unsafe.Pointer) unsafe.Pointer
+	unify      converter.UnifyFn
 	NamedIFace bool
 	Value      interface{}
 }
 
 func (o *Operand) Pointer(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.pointer(state))
+	return o.unifyPtr(o.pointer(state), state)
 }
 
-func (o *Operand) unifyPtr(pointer unsafe.Pointer) unsafe.Pointer {
-	if pointer != nil && o.unify != nil {
-		pointer = o.unify(pointer)
+func (o *Operand) unifyPtr(pointer unsafe.Pointer, state *est.State) unsafe.Pointer {
+	if pointer == nil || o.unify == nil {
+		return pointer
 	}
-	return pointer
+
+	result, err := o.unify(pointer)
+	if err != nil {
+		state.AddError(err)
+		return xunsafe.AsPointer(reflect.New(o.Type).Interface())
+	}
+
+	return result
 }
 
 func (o *Operand) pointer(state *est.State) unsafe.Pointer {
@@ -39,7 +46,7 @@ func (o *Operand) pointer(state *est.State) unsafe.Pointer {
 }
 
 func (o *Operand) Exec(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.exec(state))
+	return o.unifyPtr(o.exec(state), state)
 }
 
 func (o *Operand) exec(state *est.State) unsafe.Pointer {
@@ -154,13 +161,5 @@ func (o *Operand) getXType(rType reflect.Type) reflect.Type {
 }
 
 func (o *Operand) SetUnifier(x converter.UnifyFn) {
-	var unify func(pointer unsafe.Pointer) unsafe.Pointer
-	if x != nil {
-		unify = func(pointer unsafe.Pointer) unsafe.Pointer {
-			ptr, _ := x(pointer)
-			return ptr
-		}
-	}
-
-	o.unify = unify
+	o.unify = x
 }
-- 
2.43.0


From 6b968b617563bb285f4659f177ed632e2d053698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 36/57] fix: assigning null to a variable that can't hold it
 does not crash

---
 est/stmt/assign/assign.go | 34 +++++++++++++++++++++++++---------
 est/stmt/assign/bool.go   | 16 ++++++++++++----
 est/stmt/assign/float.go  | 16 ++++++++++++----
 est/stmt/assign/int.go    | 16 ++++++++++++----
 est/stmt/assign/string.go | 16 ++++++++++++----
 5 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..e27bb90 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -30,7 +30,9 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 
-				*(*int)(destPtr) = *(*int)(srcPtr)
+				if srcPtr != nil {
+					*(*int)(destPtr) = *(*int)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -51,7 +53,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int8)(destPtr) = *(*int8)(srcPtr)
+				if srcPtr != nil {
+					*(*int8)(destPtr) = *(*int8)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -70,7 +74,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int16)(destPtr) = *(*int16)(srcPtr)
+				if srcPtr != nil {
+					*(*int16)(destPtr) = *(*int16)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -89,7 +95,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int32)(destPtr) = *(*int32)(srcPtr)
+				if srcPtr != nil {
+					*(*int32)(destPtr) = *(*int32)(srcPtr)
+				}
 				return srcPtr
 			}
 		}
@@ -107,7 +115,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*string)(destPtr) = *(*string)(srcPtr)
+				if srcPtr != nil {
+					*(*string)(destPtr) = *(*string)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -125,7 +135,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float64)(destPtr) = *(*float64)(srcPtr)
+				if srcPtr != nil {
+					*(*float64)(destPtr) = *(*float64)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -143,7 +155,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(srcPtr)
+				if srcPtr != nil {
+					*(*float32)(destPtr) = *(*float32)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -162,7 +176,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(srcPtr)
+				if srcPtr != nil {
+					*(*bool)(destPtr) = *(*bool)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -223,7 +239,7 @@ func (a *assign) assignValue() est.Compute {
 			dest := a.x.Exec(state)
 			src := a.y.Exec(state)
 
-			if dest != nil {
+			if dest != nil && src != nil {
 				*(*unsafe.Pointer)(dest) = *(*unsafe.Pointer)(src)
 			}
 
diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 024c05b..8b10ad2 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*bool)(ret) = *(*bool)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 6790bea..973288d 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*float64)(ret) = *(*float64)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index 4bf144d..1ff8eb8 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,25 +19,33 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignIntOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignIntSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*int)(ret) = *(*int)(src)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 47ba31f..d40e535 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,24 +19,32 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	if src := a.y.Pointer(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Exec(state))
+	if src := a.y.Exec(state); src != nil {
+		*(*string)(ret) = *(*string)(src)
+	}
 	return ret
 }
-- 
2.43.0


From 77da106e92d28dfb19371ac9f21dd4c477880599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 37/57] fix: setting a variable writes exactly its size

Values of kinds narrower than a word were written as 8 bytes, overwriting
the variable behind, and arrays were truncated to 8 bytes (State.SetValue,
foreach item, function result, evaluate scope).
---
 est/op/func.go      |  2 +-
 est/state.go        | 18 ++++++++++++++++--
 est/stmt/foreach.go | 10 +++++-----
 evaluate.go         |  2 +-
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index cebec37..ed434db 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -129,7 +129,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		state.AddError(err)
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		est.SetFieldValue(accumulator.Field, state.MemPtr, anIface)
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/state.go b/est/state.go
index c86d84e..245a586 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,6 +2,7 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
 	"strings"
 	"sync"
@@ -27,8 +28,9 @@ func (s *State) SetValue(k string, v interface{}) error {
 	}
 
 	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
+	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface,
+		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Array, reflect.Complex64, reflect.Complex128:
+		SetFieldValue(xField, s.MemPtr, v)
 	default:
 		xField.Set(s.MemPtr, v)
 	}
@@ -36,6 +38,18 @@ func (s *State) SetValue(k string, v interface{}) error {
 	return nil
 }
 
+//SetFieldValue sets the field, unlike xunsafe.Field it writes exactly the size of the field
+func SetFieldValue(field *xunsafe.Field, holder unsafe.Pointer, v interface{}) {
+	switch field.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		xunsafe.Copy(field.Pointer(holder), xunsafe.AsPointer(v), int(field.Type.Size()))
+	case reflect.Array, reflect.Complex64, reflect.Complex128:
+		reflect.NewAt(field.Type, field.Pointer(holder)).Elem().Set(reflect.ValueOf(v))
+	default:
+		field.SetValue(holder, v)
+	}
+}
+
 func (s *State) EmbedValue(v interface{}) error {
 	vType := reflect.TypeOf(v)
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..a7a7712 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -24,7 +24,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
+		est.SetFieldValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -38,7 +38,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetFieldValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -52,7 +52,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetFieldValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -65,7 +65,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetFieldValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -79,7 +79,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetFieldValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
diff --git a/evaluate.go b/evaluate.go
index 8b816a5..8b29579 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -52,7 +52,7 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+		est.SetFieldValue(valueAccessor, newState.MemPtr, valueAccessor.Value(state.MemPtr))
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From 65cbd1f100e125d6f96b1d0cf8c038bb70c3fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 38/57] fix: variables holding a nil interface can be set and
 evaluated

---
 est/state.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/est/state.go b/est/state.go
index 245a586..6129211 100644
--- a/est/state.go
+++ b/est/state.go
@@ -40,6 +40,11 @@ func (s *State) SetValue(k string, v interface{}) error {
 
 //SetFieldValue sets the field, unlike xunsafe.Field it writes exactly the size of the field
 func SetFieldValue(field *xunsafe.Field, holder unsafe.Pointer, v interface{}) {
+	if v == nil && field.Kind() == reflect.Interface {
+		reflect.NewAt(field.Type, field.Pointer(holder)).Elem().Set(reflect.Zero(field.Type))
+		return
+	}
+
 	switch field.Kind() {
 	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
 		xunsafe.Copy(field.Pointer(holder), xunsafe.AsPointer(v), int(field.Type.Size()))
-- 
2.43.0


From 39b450fd8b8043fc46e46a7159480fd8c17e76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 39/57] fix: evaluating templates concurrently does not write
 shared planner data

---
 est/op/func.go | 6 ++++++
 est/type.go    | 3 ++-
 planner.go     | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index ed434db..9873c70 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -28,6 +29,7 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
+		locker    sync.Mutex //guards receivers, planners created while rendering share Functions
 		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
@@ -438,6 +440,8 @@ func (f *Functions) IsFuncNs(ns string) bool {
 }
 
 func (f *Functions) Method(rType reflect.Type, id string, call *expr.Call) (*Func, error) {
+	f.locker.Lock()
+	defer f.locker.Unlock()
 	return f.method(rType, id, call)
 }
 
@@ -899,6 +903,8 @@ func (f *Functions) discover(receiverType reflect.Type, function interface{}) (F
 }
 
 func (f *Functions) RegisterTypeFunc(receiverType reflect.Type, typeFunc *TypeFunc) error {
+	f.locker.Lock()
+	defer f.locker.Unlock()
 	return f.registerTypeFunc(receiverType, typeFunc)
 }
 
diff --git a/est/type.go b/est/type.go
index 9137ef1..a815a08 100644
--- a/est/type.go
+++ b/est/type.go
@@ -110,12 +110,13 @@ func (t *Type) Snapshot() *Type {
 		anonymousFields[key] = t.anonymousFields[key]
 	}
 
+	transients := *t.transients
 	return &Type{
 		Type:            t.Type,
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
diff --git a/planner.go b/planner.go
index 0a5cc53..08a237d 100644
--- a/planner.go
+++ b/planner.go
@@ -464,7 +464,7 @@ func (p *Planner) New() *Planner {
 		Control:    p.Control,
 		Type:       p.Type.Snapshot(),
 		selectors:  p.selectors.Snapshot(),
-		constants:  p.constants,
+		constants:  newConstants(),
 		Functions:  p.Functions,
 		cache:      p.cache,
 		escapeHTML: p.escapeHTML,
-- 
2.43.0


From d27ce7e6fecd8121c8eb307139162b7c55ee87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 40/57] fix: evaluated template is cached per scope it was
 compiled in

---
 cache.go    | 25 ++++++++++++++++++-------
 evaluate.go |  5 +++--
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/cache.go b/cache.go
index 7ad8aba..2b8a7fd 100644
--- a/cache.go
+++ b/cache.go
@@ -8,11 +8,18 @@ import (
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
+		cache     map[cacheKey]int
 		values    []*value
 		locker    sync.Locker
 	}
 
+	//cacheKey identifies a template within the scope it is evaluated in
+	cacheKey struct {
+		parent *Planner
+		fields int
+		name   string
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,17 +28,21 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]int{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
+func newCacheKey(parent *Planner, name string) cacheKey {
+	return cacheKey{parent: parent, fields: len(parent.Type.ValueAccessors()), name: name}
+}
+
+func (c *cache) expression(key cacheKey) (*value, bool) {
 	c.locker.Lock()
 	defer c.locker.Unlock()
 
-	val, ok := c.cache[name]
+	val, ok := c.cache[key]
 	if !ok {
 		return nil, false
 	}
@@ -39,7 +50,7 @@ func (c *cache) expression(name string) (*value, bool) {
 	return c.values[val], ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
 	if c.cacheSize == 0 {
 		return
 	}
@@ -52,12 +63,12 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 		planner: planner,
 		compute: compute,
 	})
-	c.cache[name] = len(c.values) - 1
+	c.cache[key] = len(c.values) - 1
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) >= c.cacheSize {
-		c.cache = map[string]int{}
+		c.cache = map[cacheKey]int{}
 		c.values = c.values[:0]
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 8b29579..7038eea 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -18,7 +18,8 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
+	key := newCacheKey(e.parent, varValue)
+	if cacheValue, ok := e.cache.expression(key); ok {
 		newState := e.newState(cacheValue.planner, state)
 		return e.execute(cacheValue.compute, newState, state)
 	}
@@ -37,7 +38,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	}
 
 	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	e.cache.put(key, evaluatorPlanner, exec)
 
 	return e.execute(exec, newState, state)
 }
-- 
2.43.0


From 65914eac843a278b22cbe18c8bec361d9144e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 41/57] fix: raised error message is not a format

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From 255d59014152855a33a7912e470483cee10d271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 42/57] fix: unmarshalling without a type parser does not crash
 compilation

---
 functions/json.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..5ebab30 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -26,6 +26,10 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 			return nil, nil
 		}
 
+		if n.parser == nil {
+			return nil, missingParserError(asLiteral.Value)
+		}
+
 		return n.parser(asLiteral.Value)
 	}
 
@@ -43,7 +47,7 @@ func (n *JSON) Marshal(any interface{}) (string, error) {
 
 func (n *JSON) UnmarshalInto(data interface{}, typeRepresentation string) (interface{}, error) {
 	if n.parser == nil {
-		return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", typeRepresentation)
+		return nil, missingParserError(typeRepresentation)
 	}
 
 	bytes, err := asBytes(data)
@@ -65,6 +69,10 @@ func (n *JSON) UnmarshalInto(data interface{}, typeRepresentation string) (inter
 
 }
 
+func missingParserError(typeRepresentation string) error {
+	return fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", typeRepresentation)
+}
+
 func asBytes(data interface{}) ([]byte, error) {
 	switch actual := data.(type) {
 	case string:
-- 
2.43.0


From 03f04fa9a629e31bf6b09d31c6cff4978557e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:32 +0000
Subject: [PATCH 43/57] fix: map lookup with a key of another type does not
 crash

---
 est/op/map.go     |  7 ++++++-
 functions/maps.go | 12 +++++++++---
 keys/normalize.go | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..80486a5 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -28,7 +28,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	key, ok := keys.ValueOf(mapValue.Type().Key(), anIndex)
+	if !ok {
+		return nil
+	}
+
+	actualValue := mapValue.MapIndex(key)
 	if !actualValue.IsValid() {
 		return nil
 	}
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..e4a6a83 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,12 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	mapKey, ok := keys.ValueOf(valueOf.Type().Key(), key)
+	if !ok {
+		return reflect.Value{}, nil
+	}
+
+	return valueOf.MapIndex(mapKey), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +107,9 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		mapValue := reflect.ValueOf(aMap)
+		key, ok := keys.ValueOf(mapValue.Type().Key(), keys.Normalize(aKey))
+		return ok && mapValue.MapIndex(key).IsValid(), nil
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..ed0f772 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,5 +1,39 @@
 package keys
 
+import "reflect"
+
+//ValueOf returns the key as a value that can be looked up in a map with given type of keys, and false if the map can't hold it
+func ValueOf(keyType reflect.Type, key interface{}) (reflect.Value, bool) {
+	if key == nil {
+		return reflect.Zero(keyType), keyType.Kind() == reflect.Interface
+	}
+
+	value := reflect.ValueOf(key)
+	if value.Type().AssignableTo(keyType) {
+		return value, value.Type().Comparable()
+	}
+
+	if value.Kind() != keyType.Kind() && !(isInteger(value.Kind()) && isInteger(keyType.Kind())) {
+		return value, false
+	}
+
+	if !value.Type().ConvertibleTo(keyType) || !value.Type().Comparable() {
+		return value, false
+	}
+
+	converted := value.Convert(keyType)
+	//integer may not fit the type of keys
+	return converted, isNegative(converted) == isNegative(value) && converted.Convert(value.Type()).Interface() == key
+}
+
+func isNegative(value reflect.Value) bool {
+	return value.Kind() >= reflect.Int && value.Kind() <= reflect.Int64 && value.Int() < 0
+}
+
+func isInteger(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Uintptr
+}
+
 func Normalize(key interface{}) interface{} {
 	if key == nil {
 		return nil
-- 
2.43.0


From e07d48e8ac9cae22579cabdf7fa17713df45da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:47 +0000
Subject: [PATCH 44/57] fix: keys of every integer kind are normalized

---
 keys/normalize.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/keys/normalize.go b/keys/normalize.go
index ed0f772..0f61188 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -64,6 +64,48 @@ func Normalize(key interface{}) interface{} {
 			return nil
 		}
 		return int(*actual)
+	case *int8:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case int8:
+		return int(actual)
+	case *uint:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case uint:
+		return int(actual)
+	case *uint8:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case uint8:
+		return int(actual)
+	case *uint16:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case uint16:
+		return int(actual)
+	case *uint32:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case uint32:
+		return int(actual)
+	case *uint64:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case uint64:
+		return int(actual)
 	case int32:
 		return int(actual)
 	case int64:
-- 
2.43.0


From 16f436cc1b155291122fa957bf1046f7fc9b52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 45/57] fix: fields nested in embedded structs are read from
 their own place

---
 planner.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/planner.go b/planner.go
index 08a237d..bfd4fc9 100644
--- a/planner.go
+++ b/planner.go
@@ -62,10 +62,6 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		cycleSelector = parent
 	}
 
-	if field.Anonymous {
-		initialOffset += field.Offset
-	}
-
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
@@ -75,7 +71,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	}
 
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += initialOffset + field.Offset
 		initialOffset = 0
 
 		if prefix == "" {
@@ -84,6 +80,12 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 			prefix = prefix + fieldName + fieldSeparator
 		}
 	} else {
+		if field.Type.Kind() == reflect.Ptr { //offsets of the children are relative to the value it points to
+			initialOffset = 0
+		} else {
+			initialOffset += field.Offset
+		}
+
 		if vTag.Prefix != "" {
 			prefix += vTag.Prefix
 		}
@@ -211,7 +213,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
-		upstreamSelector = p.copyWithParent(resultSelector, upstreamSelector)
+		upstreamSelector = p.copyWithParent(resultSelector, p.withHolders(resultSelector.Parent, upstreamSelector))
 	}
 
 	return upstreamSelector, nil
@@ -237,6 +239,15 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 	return nil, nil, nil
 }
 
+//withHolders adds embedded pointers, that hold selected field, on top of the upstream
+func (p *Planner) withHolders(holder, upstream *op.Selector) *op.Selector {
+	if holder == nil || holder.Field == nil || !holder.Anonymous {
+		return upstream
+	}
+
+	return p.copyWithParent(holder, p.withHolders(holder.Parent, upstream))
+}
+
 func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	selCopy := *dest
 	selCopy.Parent = parent
-- 
2.43.0


From d566ebb8430fbcc17e830bc34ffa8bd2f1b734c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 46/57] fix: elements of slices of pointers are read through
 their pointers

---
 est/op/slice.go    | 7 ++++++-
 est/op/upstream.go | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index 44863dc..c90bf53 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
+	"reflect"
 	"unsafe"
 )
 
@@ -35,6 +36,10 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
+	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
+		return xunsafe.DerefPointer(itemPtr)
+	}
 
+	return itemPtr
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 9add649..a5eb1b3 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -33,6 +33,9 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 	}
 
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
+	isReceiver := func(i int) bool { //method receiver is passed with a pointer to its value
+		return i < parentLen-1 && parents[i+1].Func != nil && parents[i].Type.Kind() == reflect.Ptr
+	}
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
@@ -65,9 +68,9 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef || isReceiver(i))
 			} else if parents[i].Map != nil {
-				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
+				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef || isReceiver(i))
 			} else if parents[i].InterfaceExec != nil {
 				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
 			} else {
-- 
2.43.0


From b610aa78977c600380af68ca445fe6dda812a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 47/57] fix: index of a value that is not a slice does not
 compile

---
 est/op/selector.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index 7a3b65c..b3590eb 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,6 +1,7 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
@@ -98,13 +99,22 @@ func FunctionSelector(id string, field *xunsafe.Field, aFunc *Func, parent *Sele
 }
 
 func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	slice, err := newSlice(sliceOperand, indexOperand, parent)
+	sliceType := parent.Type
+	if sliceType.Kind() == reflect.Ptr {
+		sliceType = sliceType.Elem()
+	}
+
+	if sliceType.Kind() != reflect.Slice {
+		return nil, fmt.Errorf("can't use index with %v", parent.Type.String())
+	}
+
+	slice, err := newSlice(sliceOperand, indexOperand, sliceType)
 	if err != nil {
 		return nil, err
 	}
 
 	return &Selector{
-		Type:        parent.Type.Elem(),
+		Type:        sliceType.Elem(),
 		ID:          id,
 		Indirect:    true,
 		Parent:      parent,
@@ -113,7 +123,7 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 	}, nil
 }
 
-func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
+func newSlice(sliceOperand *Operand, indexOperand *Operand, sliceType reflect.Type) (*Slice, error) {
 	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
@@ -123,7 +133,7 @@ func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*
 		SliceOperand: sliceOperand,
 		IndexOperand: indexOperand,
 		ToInter:      toInt.Y,
-		XSlice:       xunsafe.NewSlice(parent.Type),
+		XSlice:       xunsafe.NewSlice(sliceType),
 	}, nil
 }
 
@@ -139,7 +149,7 @@ func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Ope
 }
 
 func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	aSlice, err := newSlice(xOperand, indexOperand, parent)
+	aSlice, err := newSlice(xOperand, indexOperand, parent.Type)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3e83981237b17b9d05d0a1978b8161d924852c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 48/57] fix: slices held by maps and interfaces are indexed by
 their own header

---
 est/op/iface.go | 12 ++++++++++--
 est/op/map.go   |  2 +-
 est/op/slice.go | 26 +++++++++++++++++---------
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..ec0a227 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -17,10 +17,18 @@ func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	asInterface := xunsafe.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch actualValue.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice, reflect.Array:
+		index, ok := i.aSlice.index(actualValue.Len(), state)
+		if !ok {
+			return nil
+		}
+
+		item := actualValue.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		return nil
 	}
 }
diff --git a/est/op/map.go b/est/op/map.go
index 80486a5..9e2ecb4 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -44,7 +44,7 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
+	case reflect.Map:
 		return xunsafe.AsPointer(actualValue.Pointer())
 	default:
 		return xunsafe.AsPointer(iface)
diff --git a/est/op/slice.go b/est/op/slice.go
index c90bf53..71cdb21 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -17,17 +17,30 @@ type Slice struct {
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	sliceLen := s.XSlice.Len(slicePtr)
+	index, ok := s.index(s.XSlice.Len(slicePtr), state)
+	if !ok {
+		return nil
+	}
 
+	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
+	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
+		return xunsafe.DerefPointer(itemPtr)
+	}
+
+	return itemPtr
+}
+
+//index returns index of the item, or false if the index is null
+func (s *Slice) index(sliceLen int, state *est.State) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
-		return nil
+		return 0, false
 	}
 
 	if s.ToInter != nil {
 		var err error
 		if indexPtr, err = s.ToInter(indexPtr); err != nil || indexPtr == nil {
-			return nil
+			return 0, false
 		}
 	}
 
@@ -36,10 +49,5 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
-	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
-		return xunsafe.DerefPointer(itemPtr)
-	}
-
-	return itemPtr
+	return index, true
 }
-- 
2.43.0


From ee0009e0546c321d3ba2ea3ae790fb31933b7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 49/57] fix: index of undefined type does not compile

---
 est/op/selector.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/est/op/selector.go b/est/op/selector.go
index b3590eb..8b0d3cb 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -124,6 +124,10 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, sliceType reflect.Type) (*Slice, error) {
+	if err := validateIndex(indexOperand); err != nil {
+		return nil, err
+	}
+
 	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
@@ -137,7 +141,19 @@ func newSlice(sliceOperand *Operand, indexOperand *Operand, sliceType reflect.Ty
 	}, nil
 }
 
+func validateIndex(indexOperand *Operand) error {
+	if indexOperand == nil || indexOperand.Type == nil {
+		return fmt.Errorf("index type is undefined")
+	}
+
+	return nil
+}
+
 func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
+	if err := validateIndex(indexOperand); err != nil {
+		return nil, err
+	}
+
 	return &Selector{
 		Type:        parent.Type.Elem(),
 		ID:          id,
-- 
2.43.0


From 213469475bbab25bfe4248be10b6502169643e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 50/57] fix: values of interfaces with methods are read by
 their own layout

---
 est/op/iface.go    | 3 +--
 est/op/map.go      | 7 +++++++
 est/op/selector.go | 6 +++++-
 est/stmt/select.go | 3 +--
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index ec0a227..b9962e5 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -2,7 +2,6 @@ package op
 
 import (
 	"github.com/viant/velty/est"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -14,7 +13,7 @@ type Interface struct {
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	asInterface := i.xOperand.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
 	switch actualValue.Kind() {
diff --git a/est/op/map.go b/est/op/map.go
index 9e2ecb4..5013e8f 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -13,6 +13,7 @@ type Map struct {
 	indexOperand *Operand
 	isValueIface bool
 	elemKind     reflect.Kind
+	elemType     reflect.Type
 }
 
 func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
@@ -38,6 +39,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
+	if m.isValueIface && m.elemType.NumMethod() > 0 { //interface with methods is not laid out as interface{}
+		cell := reflect.New(m.elemType)
+		cell.Elem().Set(actualValue)
+		return unsafe.Pointer(cell.Pointer())
+	}
+
 	iface := actualValue.Interface()
 	if m.isValueIface {
 		return unsafe.Pointer(&iface)
diff --git a/est/op/selector.go b/est/op/selector.go
index 8b0d3cb..701aff9 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -2,6 +2,7 @@ package op
 
 import (
 	"fmt"
+	"github.com/viant/xreflect"
 	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
@@ -171,7 +172,7 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 	}
 
 	return &Selector{
-		Type:        parent.Type,
+		Type:        xreflect.InterfaceType,
 		ID:          id,
 		Indirect:    true,
 		Parent:      parent,
@@ -189,6 +190,8 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 	switch rType.Kind() {
 	case reflect.Map:
 		rType = rType.Elem()
+	default: //map held by an interface
+		rType = xreflect.InterfaceType
 	}
 
 	elemKind := rType.Kind()
@@ -197,5 +200,6 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 		indexOperand: indexOperand,
 		isValueIface: elemKind == reflect.Interface,
 		elemKind:     elemKind,
+		elemType:     rType,
 	}
 }
diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..78787cc 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"time"
 	"unsafe"
@@ -85,7 +84,7 @@ func (a *directAppender) appendSelectorName() est.Compute {
 func (a *directAppender) newInterfaceAppender() est.Compute {
 	return func(state *est.State) unsafe.Pointer {
 		exec := a.x.Exec(state)
-		iface := xunsafe.AsInterface(exec)
+		iface := a.x.AsInterface(exec)
 		switch actual := iface.(type) {
 		case string:
 			state.Buffer.AppendString(actual)
-- 
2.43.0


From ab5497c9d6c8530036ad484d3835ee73edd7ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 51/57] fix: method of a null interface value yields null

---
 est/op/func.go     | 4 ++++
 est/op/upstream.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index 9873c70..18c9080 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -176,6 +176,10 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 	caller := f.caller
 	if f.iFaceMethod { //TODO optimize
 		owner := operands[0].ExecReflectValue(state)
+		if !owner.IsValid() || (owner.Kind() == reflect.Interface && owner.IsNil()) { //there is no method to call
+			return nil, nil
+		}
+
 		method := owner.MethodByName(f.Name)
 		caller = method
 		operands = operands[1:]
diff --git a/est/op/upstream.go b/est/op/upstream.go
index a5eb1b3..93d0b35 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -63,6 +63,13 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 
 					}
 
+					if newArg.Value == nil { //null interface, operand has to evaluate to it rather than to its selector
+						receiverPtr := ptr
+						newArg.Comp = func(state *est.State) unsafe.Pointer {
+							return receiverPtr
+						}
+					}
+
 					args[0] = &newArg
 				}
 
-- 
2.43.0


From 58cdbe78d635005e14de827258f9dfcfe2c6dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 52/57] fix: function called on a map returned by another call
 reads the map

---
 est/op/upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index 93d0b35..c516add 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -56,7 +56,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 					copy(args, parents[i].Args)
 					newArg := *args[0]
 					newArg.Comp = nil
-					if parents[i-1].Func != nil {
+					if parents[i-1].Func != nil && parents[i-1].Type.Kind() != reflect.Map { //map is returned by its address
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
 						newArg.Value = newArg.AsInterface(ptr)
-- 
2.43.0


From 8943035acb87d40de4bec631e59cecdecf20744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 53/57] fix: result of a function returning an interface is
 read as the interface

---
 est/op/func.go    | 6 ++++++
 est/op/operand.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index 18c9080..7747609 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -132,6 +132,12 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	}
 	if anIface != nil {
 		est.SetFieldValue(accumulator.Field, state.MemPtr, anIface)
+		if accumulator.Type.Kind() == reflect.Interface { //interface is read by its address
+			result := reflect.New(accumulator.Type)
+			result.Elem().Set(reflect.ValueOf(anIface))
+			return unsafe.Pointer(result.Pointer())
+		}
+
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/op/operand.go b/est/op/operand.go
index f5a2aa1..30c7bb9 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -142,7 +142,7 @@ func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
 	var anInterface interface{}
 	switch o.XType.Kind() {
 	case reflect.Interface:
-		anInterface = xunsafe.AsInterface(valuePtr)
+		anInterface = o.AsInterface(valuePtr)
 	default:
 		anInterface = o.XType.Value(valuePtr)
 	}
-- 
2.43.0


From 21eb9541a7e53e18916c97d5c9278d804c228265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 54/57] fix: map returned by a function of a specified result
 type is read by its address

---
 est/op/func.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 7747609..2007251 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -132,15 +132,12 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	}
 	if anIface != nil {
 		est.SetFieldValue(accumulator.Field, state.MemPtr, anIface)
-		if accumulator.Type.Kind() == reflect.Interface { //interface is read by its address
+		switch accumulator.Type.Kind() {
+		case reflect.Interface, reflect.Map: //read by the address
 			result := reflect.New(accumulator.Type)
 			result.Elem().Set(reflect.ValueOf(anIface))
 			return unsafe.Pointer(result.Pointer())
 		}
-
-		if f.XType.Type().Kind() == reflect.Map {
-			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
-		}
 		return xunsafe.AsPointer(anIface)
 	}
 
-- 
2.43.0


From 91cf711c565f5b507d0739b29e468293831fd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 55/57] fix: embedded unnamed types with the same text keep
 their own holders

---
 est/type.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/est/type.go b/est/type.go
index a815a08..da6c9fc 100644
--- a/est/type.go
+++ b/est/type.go
@@ -20,7 +20,7 @@ type Type struct {
 	fields          []reflect.StructField
 	xFields         []*xunsafe.Field
 	transients      *int
-	anonymousFields map[string]string
+	anonymousFields map[reflect.Type]string
 }
 
 func (t *Type) AddField(id string, name string, rType reflect.Type) reflect.StructField {
@@ -64,7 +64,7 @@ func (t *Type) addField(id string, name string, rType reflect.Type, anonymous bo
 			name = t.ReserveNewName()
 		} else {
 			name = t.reserveNewName(anonymousNamespace)
-			t.anonymousFields[rType.String()] = name
+			t.anonymousFields[rType] = name
 			id = name
 		}
 	}
@@ -97,7 +97,7 @@ func (t *Type) Snapshot() *Type {
 	xFields := make([]*xunsafe.Field, len(t.xFields))
 	fields := make([]reflect.StructField, len(t.fields))
 	types := map[string]int{}
-	anonymousFields := map[string]string{}
+	anonymousFields := map[reflect.Type]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
 	copy(fields, t.fields)
@@ -132,8 +132,7 @@ func (t *Type) reserveNewName(ns string) string {
 }
 
 func (t *Type) AnonymousHolder(rType reflect.Type) (string, bool) {
-	stringified := rType.String()
-	holder, ok := t.anonymousFields[stringified]
+	holder, ok := t.anonymousFields[rType]
 	return holder, ok
 }
 
@@ -143,6 +142,6 @@ func NewType() *Type {
 		Type:            reflect.StructOf([]reflect.StructField{}),
 		fieldsIndex:     map[string]int{},
 		transients:      &transients,
-		anonymousFields: map[string]string{},
+		anonymousFields: map[reflect.Type]string{},
 	}
 }
-- 
2.43.0


From c4a030edc2d419789ec396c09d4d7352aa0cc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 56/57] fix: value of another type of the same name is not
 embedded

---
 est/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/state.go b/est/state.go
index 6129211..f12688e 100644
--- a/est/state.go
+++ b/est/state.go
@@ -76,6 +76,10 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
+	if xField.Type != vType && xField.Type != reflect.PtrTo(vType) {
+		return fmt.Errorf("not found holder for %T", v)
+	}
+
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice:
 		xField.SetValue(s.MemPtr, v)
-- 
2.43.0


From d664725468a902372fac888b7d21fa6cf77735c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 57/57] fix: embedding a value writes exactly the size of its
 slot

---
 est/state.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/est/state.go b/est/state.go
index f12688e..f99c29f 100644
--- a/est/state.go
+++ b/est/state.go
@@ -27,6 +27,11 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
+	s.setField(xField, v)
+	return nil
+}
+
+func (s *State) setField(xField *xunsafe.Field, v interface{}) {
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface,
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Array, reflect.Complex64, reflect.Complex128:
@@ -34,8 +39,6 @@ func (s *State) SetValue(k string, v interface{}) error {
 	default:
 		xField.Set(s.MemPtr, v)
 	}
-
-	return nil
 }
 
 //SetFieldValue sets the field, unlike xunsafe.Field it writes exactly the size of the field
@@ -80,13 +83,7 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("not found holder for %T", v)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
-	}
-
+	s.setField(xField, v)
 	return nil
 }
 
-- 
2.43.0

