From 55c8897436fbb31e6467d1558f84e73040f4582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 001/105] fix: mod and rem compute exact residues and reject
 zero divisors

---
 operator.go | 89 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/operator.go b/operator.go
index adaa3fd..0283225 100644
--- a/operator.go
+++ b/operator.go
@@ -224,51 +224,62 @@ func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
 	return floatToInteger(arg, math.Round)
 }
 
-func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-	var left float64
-	var right float64
-	bits := 0
-
-	if _left, ok := first.(Float); ok {
-		left = float64(_left)
-	} else {
-		_left, ok := first.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		left = float64(int(_left))
-		bits = 1
-	}
-	if _right, ok := second.(Float); ok {
-		right = float64(_right)
-	} else {
-		_right, ok := second.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		right = float64(int(_right))
-		bits |= 2
-	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
+// toFloat converts a number to Float.
+func toFloat(ctx context.Context, w *World, n Node) (Float, error) {
+	if i, ok := n.(Integer); ok {
+		return Float(i), nil
 	}
-	return Float(value), nil
+	return ExpectClass[Float](ctx, w, n)
 }
 
-func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
+// divideWithRemainder calls forInt when both operands are integers and forFloat otherwise.
+func divideWithRemainder(ctx context.Context, w *World, first, second Node,
+	forInt func(Integer, Integer) Integer, forFloat func(float64, float64) float64) (Node, error) {
+
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
-			return Integer(left % right), nil
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
+			return forInt(left, right), nil
 		}
 	}
-	if left, ok := first.(Float); ok {
-		if right, ok := second.(Float); ok {
-			return Float(math.Mod(float64(left), float64(right))), nil
-		}
-		if right, ok := second.(Integer); ok {
-			return Float(math.Mod(float64(left), float64(int(right)))), nil
-		}
+	left, err := toFloat(ctx, w, first)
+	if err != nil {
+		return nil, err
+	}
+	right, err := toFloat(ctx, w, second)
+	if err != nil {
+		return nil, err
+	}
+	if right == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
 	}
-	return nil, ErrNotSupportType
+	return Float(forFloat(float64(left), float64(right))), nil
+}
+
+// funMod implements (mod X Y). The result has the same sign as Y.
+func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
+	return divideWithRemainder(ctx, w, first, second,
+		func(left, right Integer) Integer {
+			value := left % right
+			if value != 0 && (value < 0) != (right < 0) {
+				value += right
+			}
+			return value
+		},
+		func(left, right float64) float64 {
+			value := math.Mod(left, right)
+			if value != 0 && (value < 0) != (right < 0) {
+				value += right
+			}
+			return value
+		})
+}
+
+// funRem implements (rem X Y). The result has the same sign as X.
+func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
+	return divideWithRemainder(ctx, w, first, second,
+		func(left, right Integer) Integer { return left % right },
+		math.Mod)
 }
-- 
2.43.0


From c2016ac3e14a5169777c692aacb89d4f6dd9f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 002/105] fix: oddp is true for negative odd integers

---
 cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmds.go b/cmds.go
index 803753e..29bc076 100644
--- a/cmds.go
+++ b/cmds.go
@@ -151,7 +151,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
-- 
2.43.0


From abab0da4e060668bfe136103d28c8185401aaf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 003/105] fix: round ties to the even integer

---
 operator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index 0283225..2336a42 100644
--- a/operator.go
+++ b/operator.go
@@ -221,7 +221,7 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
 // toFloat converts a number to Float.
-- 
2.43.0


From b5b1114cbae1bd637888f486c454c50c7f526bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 004/105] fix: mixed integer and float arithmetic does not
 invoke the condition handler

---
 atom.go   |  20 +++++-----
 number.go | 112 +++++++++++++++++++++++++++---------------------------
 2 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..d3f234c 100644
--- a/atom.go
+++ b/atom.go
@@ -176,25 +176,25 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r + value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r + Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r + value, nil
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r - value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r - Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r - value, nil
 }
 
 func compareRune(ctx context.Context, w *World, argv []Node, f func(rune) bool) (Node, error) {
diff --git a/number.go b/number.go
index 78ce32a..8bdd4ca 100644
--- a/number.go
+++ b/number.go
@@ -52,36 +52,36 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i + _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) + _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i + _n, nil
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i - _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) - _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i - _n, nil
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i * _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) * _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i * _n, nil
 }
 
 type ArithmeticError struct {
@@ -147,31 +147,31 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, i, n)
-		}
-		return i / _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
 		return Float(i) / _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, i, n)
+	}
+	return i / _n, nil
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i < _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) < _n, nil
 	}
-	return false, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return i < _n, nil
 }
 
 type Float float64
@@ -200,64 +200,64 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f + _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f + Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f + _n, nil
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f - _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f - Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f - _n, nil
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f * _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f * Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f * _n, nil
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, f, n)
-		}
-		return f / _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
 		return f / Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, f, n)
+	}
+	return f / _n, nil
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f < _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f < Float(_n), nil
 	}
-	return false, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return f < _n, nil
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-- 
2.43.0


From bf024a6d6cb708847a24d0c6f703a77da2fa9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 005/105] fix: chained comparisons compare every adjacent pair

---
 operator.go | 110 ++++++++++++++++++++--------------------------------
 1 file changed, 43 insertions(+), 67 deletions(-)

diff --git a/operator.go b/operator.go
index 2336a42..3893711 100644
--- a/operator.go
+++ b/operator.go
@@ -5,16 +5,6 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
-	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
-	}
-	return True, err
-}
-
 type canPlus interface {
 	Node
 	Add(context.Context, *World, Node) (Node, error)
@@ -82,81 +72,67 @@ type canLessThan interface {
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
-func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
+// lessThan returns whether left < right. When left is not comparable, it is a domain error.
+func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
+	type comparable interface {
+		Node
+		canLessThan
+	}
+	_left, err := ExpectInterface[comparable](ctx, w, left, numberClass)
+	if err != nil {
+		return false, err
+	}
+	return _left.LessThan(ctx, w, right)
+}
+
+// compareChain returns True if f is satisfied by every adjacent pair in list.
+func compareChain(list []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	for ; len(list) >= 2; list = list[1:] {
+		ok, err := f(list[0], list[1])
+		if err != nil {
+			return nil, err
+		}
+		if !ok {
 			return Null, nil
 		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+	}
+	return True, nil
+}
+
+func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, left, right)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, right, left)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, left, right)
+		return !result, err
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, right, left)
+		return !result, err
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From 433f35a7a540f08ca525896d70765a2c28b3f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 006/105] fix: arithmetic on no operands and on non-numbers

---
 operator.go | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/operator.go b/operator.go
index 3893711..c6996f0 100644
--- a/operator.go
+++ b/operator.go
@@ -11,11 +11,18 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
+	if len(args) == 1 {
+		return ExpectInterface[canPlus](ctx, w, args[0], numberClass)
+	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canPlus); ok {
-			return _left.Add(ctx, w, right)
+		_left, err := ExpectInterface[canPlus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Add(ctx, w, right)
 	})
 }
 
@@ -26,19 +33,17 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
-		class := args[0].ClassOf()
-		zero := class.Create()
-		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
-		if err != nil {
-			return nil, err
+		if f, ok := args[0].(Float); ok {
+			return -f, nil
 		}
-		return z.Sub(ctx, w, args[0])
+		return Integer(0).Sub(ctx, w, args[0])
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canMinus); ok {
-			return _left.Sub(ctx, w, right)
+		_left, err := ExpectInterface[canMinus](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Sub(ctx, w, right)
 	})
 }
 
@@ -47,11 +52,18 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
+	if len(args) == 1 {
+		return ExpectInterface[CanMulti](ctx, w, args[0], numberClass)
+	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanMulti); ok {
-			return _left.Multi(ctx, w, right)
+		_left, err := ExpectInterface[CanMulti](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Multi(ctx, w, right)
 	})
 }
 
@@ -61,10 +73,11 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		Divide(context.Context, *World, Node) (Node, error)
 	}
 	return inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(CanDevide); ok {
-			return _left.Divide(ctx, w, right)
+		_left, err := ExpectInterface[CanDevide](ctx, w, left, numberClass)
+		if err != nil {
+			return nil, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return _left.Divide(ctx, w, right)
 	})
 }
 
-- 
2.43.0


From 0b78fba101393acdae90ba9ed00185c45d848d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 007/105] fix: end of text inside a string, |symbol|, block
 comment or escape is an error

---
 pkg/parser/tokenize.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..5e4eb06 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -8,8 +8,19 @@ import (
 	"unicode"
 )
 
+// unexpectedEOF converts io.EOF found in the middle of an object to ErrTooShortTokens.
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return ErrTooShortTokens
+	}
+	return err
+}
+
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
+	if err == io.EOF {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
@@ -23,13 +34,13 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	for {
 		c, _, err = r.ReadRune()
 		if err != nil {
-			return true, err
+			return true, unexpectedEOF(err)
 		}
 		switch c {
 		case '|':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, unexpectedEOF(err)
 			}
 			if c == '#' {
 				nest--
@@ -42,7 +53,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 		case '#':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, unexpectedEOF(err)
 			}
 			if c == '|' {
 				nest++
@@ -66,13 +77,16 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if quote || bar4symbol {
+				return "", unexpectedEOF(err)
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", fmt.Errorf("too near EOF: %w", unexpectedEOF(err))
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
@@ -147,5 +161,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		if token != "" {
 			return token, nil
 		}
+		if err != nil {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 8e9ea092e56180f5caea1f3ccf813ebb047a7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 008/105] fix: a block comment ends the token before it

---
 pkg/parser/tokenize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 5e4eb06..252eff4 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -106,6 +106,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 					return "", err
 				}
 				if done {
+					if buffer.Len() > 0 {
+						return buffer.String(), nil
+					}
 					continue
 				}
 			}
-- 
2.43.0


From c1329cf3bca06b186e104aecc99f83a0b1eab427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 009/105] fix: malformed array literals are errors and #nA is
 accepted as printed

---
 pkg/parser/main.go     | 11 +++++++----
 pkg/parser/tokenize.go |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..19990c3 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -21,6 +21,9 @@ var (
 	rxArray      = regexp.MustCompile(`^#(\d*)[aA]\(`)
 )
 
+// maxArrayRank is the upper bound of the number of dimensions of #nA(...)
+const maxArrayRank = 64
+
 var (
 	ErrTooFewArguments   = errors.New("too few arguments")
 	ErrTooManyArguments  = errors.New("too many arguments")
@@ -75,7 +78,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), unexpectedEOF(err)
 			}
 			if newNode == p.parenCloseSymbol {
 				fix[countDim] = true
@@ -92,7 +95,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), unexpectedEOF(err)
 			}
 			if token == "(" {
 				if !fix[countDim] {
@@ -274,8 +277,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 || dim > maxArrayRank {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 252eff4..b968d11 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -66,7 +66,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
 func readtokenWord(r io.RuneScanner) (string, error) {
 	var buffer strings.Builder
-- 
2.43.0


From 814d47c583f9ffd92d85a6c4a3980ce6982cc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 010/105] fix: arrays without elements are printed with their
 opening parenthesis

---
 array.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 89d9cee..41e4863 100644
--- a/array.go
+++ b/array.go
@@ -45,8 +45,12 @@ func (*Array) ClassOf() Class {
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
 	dem := byte('(')
 	n := 0
-	if len(dim) < 1 {
-		w.Write([]byte{dem})
+	if len(dim) < 1 || dim[0] <= 0 {
+		_n, err := w.Write([]byte{dem})
+		n += _n
+		if err != nil {
+			return nil, n, err
+		}
 	} else {
 		for i := 0; i < dim[0]; i++ {
 			_n, err := w.Write([]byte{dem})
-- 
2.43.0


From 86458f2adba1ac2260c9cc3b0263f5be0a80a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 011/105] fix: string literals are printed with the escapes the
 reader understands

---
 string.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 1816b15..a0c5856 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -19,8 +18,18 @@ func (s String) String() string {
 	return string(s)
 }
 
+// GoString returns the string literal the reader reads back as s.
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	var buffer strings.Builder
+	buffer.WriteByte('"')
+	for _, c := range string(s) {
+		if c == '"' || c == '\\' {
+			buffer.WriteByte('\\')
+		}
+		buffer.WriteRune(c)
+	}
+	buffer.WriteByte('"')
+	return buffer.String()
 }
 
 func (s String) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From 79d9b1d1f2f5cdedc59241c8d58118e53704c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 012/105] fix: symbols whose names need it are printed between
 bars

---
 atom.go                | 25 +++++++++++++++++++++++++
 pkg/parser/tokenize.go |  2 +-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/atom.go b/atom.go
index d3f234c..ced97c0 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -128,6 +129,30 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+// isPlainSymbolName reports whether the reader reads name itself as the symbol of that name.
+func isPlainSymbolName(name string) bool {
+	if name == "" || name == "." || strings.EqualFold(name, "t") || strings.EqualFold(name, "nil") {
+		return false
+	}
+	if name[0] == ':' || name[0] == '&' || strings.ContainsAny(name, "()'`,;\"|\\") {
+		return false
+	}
+	if strings.IndexFunc(name, unicode.IsSpace) >= 0 {
+		return false
+	}
+	_, isNumber, _ := tryParseAsNumber(name)
+	return !isNumber
+}
+
+// GoString returns the S-expression the reader reads back as s.
+func (s _Symbol) GoString() string {
+	name := s.String()
+	if isPlainSymbolName(name) {
+		return name
+	}
+	return "|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(name) + "|"
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index b968d11..4bf4816 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -121,7 +121,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				return buffer.String(), nil
 			}
 		}
-		if lastRune == '"' {
+		if lastRune == '"' && !bar4symbol {
 			quote = !quote
 		}
 		if !quote && lastRune == '|' && lastLastRune != '\\' {
-- 
2.43.0


From 711e17ae5645c66ee90449f08009e94e21b8501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 013/105] fix: the symbols |)| and |.| are not delimiters

---
 pkg/parser/main.go | 59 ++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 19990c3..0e9fb03 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -48,17 +48,16 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
+	functionSymbol N
 }
 
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
+// nodes2cons makes the list of nodes. dot is the index of the token "." in nodes or -1.
+func (p *_Parser[N]) nodes2cons(nodes []N, dot int) N {
 	if nodes == nil || len(nodes) <= 0 {
 		return p.Null()
 	}
 	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
+	if len(nodes) >= 3 && len(nodes)-2 == dot {
 		// dot pairs
 		cons = nodes[len(nodes)-1]
 		nodes = nodes[:len(nodes)-2]
@@ -76,11 +75,11 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	fix := make([]bool, lenDim)
 	for {
 		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
+			newNode, token, err := p.readNode(rs)
 			if err != nil {
 				return p.Null(), unexpectedEOF(err)
 			}
-			if newNode == p.parenCloseSymbol {
+			if token == ")" {
 				fix[countDim] = true
 				countDim--
 				if countDim < 0 {
@@ -198,26 +197,19 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) (N, error) {
 	nodes := []N{}
-	var err error
+	dot := -1
 	for {
+		node1, token, err := p.readNode(rs)
 		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+			return p.Null(), unexpectedEOF(err)
 		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
+		if token == ")" {
+			return p.nodes2cons(nodes, dot), nil
 		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		if token == "." {
+			dot = len(nodes)
 		}
 		nodes = append(nodes, node1)
 	}
@@ -228,10 +220,21 @@ var symbol4barReplacer = strings.NewReplacer(
 	`\|`, `|`)
 
 func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
+	node, _, err := p.readNode(rs)
+	return node, err
+}
+
+// readNode reads a node and returns it with its first token.
+func (p *_Parser[N]) readNode(rs io.RuneScanner) (N, string, error) {
 	token, err := readToken(rs)
 	if err != nil {
-		return p.Null(), err
+		return p.Null(), "", err
 	}
+	node, err := p.parseToken(token, rs)
+	return node, token, err
+}
+
+func (p *_Parser[N]) parseToken(token string, rs io.RuneScanner) (N, error) {
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
@@ -283,11 +286,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
-		if err != nil {
-			return p.Null(), err
-		}
-		return p.nodes2cons(nodes), nil
+		return p.readUntilCloseParen(rs)
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -362,9 +361,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
 		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
-- 
2.43.0


From 05f55298ffdcb71e641b00a76d9287722ecfb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 014/105] fix: #' is a prefix only at the start of a token

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 4bf4816..84a171d 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -130,7 +130,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+		if buffer.String() == "#'" {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
-- 
2.43.0


From 64f468984281f42a5d768c218a9a2012dcb26149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 015/105] fix: a space follows the symbol |,| in a printed list

---
 cons.go  | 8 ++------
 parse.go | 1 -
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/cons.go b/cons.go
index 80dc726..6e30212 100644
--- a/cons.go
+++ b/cons.go
@@ -85,7 +85,6 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
 	if IsNone(cons.Car) {
 		if wc.Try(io.WriteString(w, "nil")) {
 			return wc.Result()
@@ -101,10 +100,8 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 			// output as ( X Y Z ...)
 
 			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
+				if wc.Try(io.WriteString(w, " ")) {
+					return wc.Result()
 				}
 				if IsNull(p.Car) {
 					if wc.Try(io.WriteString(w, "nil")) {
@@ -113,7 +110,6 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
 					return wc.Result()
 				}
-				lastCar = p.Car
 			}
 		} else {
 			// output as ( X . Y )
diff --git a/parse.go b/parse.go
index 76094ec..ae1f504 100644
--- a/parse.go
+++ b/parse.go
@@ -9,7 +9,6 @@ import (
 
 var (
 	ampRest         = NewKeyword("&rest")
-	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
 	nulSymbol       = NewSymbol("")
 	quoteSymbol     = NewSymbol("quote")
-- 
2.43.0


From 22c90eed6249f4dc0a33458f459c400958dac67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 016/105] fix: arrays are compared by identity or element by
 element

---
 array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 41e4863..1f685ac 100644
--- a/array.go
+++ b/array.go
@@ -110,6 +110,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -122,7 +125,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
-- 
2.43.0


From fc3069f240e06f8db3a8d6cb26df981aa54a03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 017/105] fix: functions, hash tables and streams are equal to
 themselves and never crash a comparison

---
 cmds.go        |  5 +++++
 error.go       |  3 ++-
 functionref.go |  6 ++++++
 hash.go        |  4 +++-
 macro.go       |  2 +-
 newtypes.go    | 36 +++++++++++++++++++++---------------
 6 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/cmds.go b/cmds.go
index 29bc076..7241dd0 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,6 +68,11 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
+		switch left.(type) {
+		case FunctionRef, _Hash, _JoinedForm:
+			// they can not be compared with ==
+			return left.Equals(right, STRICT)
+		}
 		return left == right
 	})
 }
diff --git a/error.go b/error.go
index 8c49c20..8c84762 100644
--- a/error.go
+++ b/error.go
@@ -258,7 +258,8 @@ func (p *ParseError) String() string {
 }
 
 func (p *ParseError) Equals(n Node, _ EqlMode) bool {
-	return false
+	other, ok := n.(*ParseError)
+	return ok && p == other
 }
 
 func (p *ParseError) Error() string {
diff --git a/functionref.go b/functionref.go
index f4ec65c..24ccc4c 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type FunctionRef struct {
@@ -21,6 +22,11 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	v, w := reflect.ValueOf(f.value), reflect.ValueOf(_other.value)
+	if v.Kind() == reflect.Func || w.Kind() == reflect.Func {
+		// Go functions can not be compared with ==
+		return v.Type() == w.Type() && v.Pointer() == w.Pointer()
+	}
 	return f.value == _other.value
 }
 
diff --git a/hash.go b/hash.go
index e330e0c..d9dd7d7 100644
--- a/hash.go
+++ b/hash.go
@@ -4,13 +4,15 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 	"strings"
 )
 
 type _Hash map[Node]Node
 
 func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+	_other, ok := other.(_Hash)
+	return ok && reflect.ValueOf(h).Pointer() == reflect.ValueOf(_other).Pointer()
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/macro.go b/macro.go
index bb0c4a2..3e40c99 100644
--- a/macro.go
+++ b/macro.go
@@ -57,7 +57,7 @@ func (j _JoinedForm) Equals(_other Node, m EqlMode) bool {
 		return false
 	}
 	for i := range j {
-		if j[i].Equals(other[i], m) {
+		if !j[i].Equals(other[i], m) {
 			return false
 		}
 	}
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..89efab3 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -6,8 +6,9 @@ func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
 }
 
-func (t *StringBuilder) Equals(Node, EqlMode) bool {
-	return false
+func (t *StringBuilder) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*StringBuilder)
+	return ok && t == other
 }
 
 var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
@@ -16,8 +17,9 @@ func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
 }
 
-func (t *inputStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *inputStream) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*inputStream)
+	return ok && t == other
 }
 
 func (t *inputStream) String() string {
@@ -30,16 +32,18 @@ func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
 }
 
-func (t *_OutputFileStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *_OutputFileStream) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_OutputFileStream)
+	return ok && t == other
 }
 
 func (t *_OutputFileStream) String() string {
 	return "(*_OutputFileStream)"
 }
 
-func (t *_Macro) Equals(Node, EqlMode) bool {
-	return false
+func (t *_Macro) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_Macro)
+	return ok && t == other
 }
 
 func (t *_Macro) String() string {
@@ -52,24 +56,26 @@ func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
 }
 
-func (t _ReaderNode) Equals(Node, EqlMode) bool {
-	return false
+func (t _ReaderNode) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(_ReaderNode)
+	return ok && t == other
 }
 
 func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewBuiltInClass[*_WriterNode]("<_WriterNode>")
 
-func (_WriterNode) ClassOf() Class {
+func (*_WriterNode) ClassOf() Class {
 	return writerNodeClass
 }
 
-func (t _WriterNode) Equals(Node, EqlMode) bool {
-	return false
+func (t *_WriterNode) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_WriterNode)
+	return ok && t == other
 }
 
-func (t _WriterNode) String() string {
+func (t *_WriterNode) String() string {
 	return "(_WriterNode)"
 }
-- 
2.43.0


From edf09c316b197dafb37c29204917cf18e4e188c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 018/105] fix: equal on instances tells an unbound slot from
 nil

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 2dab2ac..a029bc0 100644
--- a/class.go
+++ b/class.go
@@ -377,7 +377,7 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 		return false
 	}
 	for key, val := range r.Slot {
-		if !val.Equals(other.Slot[key], m) {
+		if otherVal, ok := other.Slot[key]; !ok || !val.Equals(otherVal, m) {
 			return false
 		}
 	}
-- 
2.43.0


From 25ee4c7206a30fa0884466c55a9a523eca77a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 019/105] fix: elt rejects negative indexes, positions after
 the end of a string and objects that are not sequences

---
 array.go    |  2 +-
 sequence.go | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index 1f685ac..e3c03da 100644
--- a/array.go
+++ b/array.go
@@ -184,7 +184,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
diff --git a/sequence.go b/sequence.go
index 2a7054c..4f22532 100644
--- a/sequence.go
+++ b/sequence.go
@@ -99,12 +99,22 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, ErrIndexOutOfRange
+		}
 		for list := value; index >= 0; {
-			seq, ok := list.(Sequence)
-			if !ok {
+			if IsNone(list) {
 				return Null, nil
 			}
-			value, list, _ = seq.FirstAndRest()
+			seq, err := ExpectInterface[Sequence](ctx, w, list, listClass)
+			if err != nil {
+				return nil, err
+			}
+			var ok bool
+			value, list, ok = seq.FirstAndRest()
+			if !ok {
+				return nil, ErrIndexOutOfRange
+			}
 			index--
 		}
 	}
-- 
2.43.0


From 86b06cff4ce488ba9570c61a05c36ad4169d3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 020/105] fix: maplist, mapl and mapcon do not call the
 function for an empty list

---
 sequence.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sequence.go b/sequence.go
index 4f22532..d4c5171 100644
--- a/sequence.go
+++ b/sequence.go
@@ -219,12 +219,7 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
-		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
-		if err != nil {
-			return err
-		}
-		store(result)
-
+		restSet := make([]Node, len(listSet))
 		for i := 0; i < len(listSet); i++ {
 			if IsNone(listSet[i]) {
 				return nil
@@ -233,11 +228,17 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 			if !ok {
 				return ErrNotSupportType
 			}
-			_, listSet[i], ok = seq.FirstAndRest()
-			if !ok || IsNone(listSet[i]) {
+			_, restSet[i], ok = seq.FirstAndRest()
+			if !ok {
 				return nil
 			}
 		}
+		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
+		if err != nil {
+			return err
+		}
+		store(result)
+		listSet = restSet
 	}
 }
 
-- 
2.43.0


From 7614a868306553d39b1335e93822c1501a85b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 021/105] fix: mapl returns its first list

---
 sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index d4c5171..5ca0566 100644
--- a/sequence.go
+++ b/sequence.go
@@ -259,7 +259,7 @@ func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if len(argv) < 2 {
 		return Null, err
 	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 70724cd4136cb0e9fbcb2d751de5fc04b5417d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 022/105] fix: mapping functions without a list are errors
 instead of endless loops

---
 sequence.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sequence.go b/sequence.go
index 5ca0566..4b357b0 100644
--- a/sequence.go
+++ b/sequence.go
@@ -165,7 +165,7 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 }
 
 func funMapCar(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	var buffer ListBuilder
@@ -174,18 +174,15 @@ func funMapCar(ctx context.Context, w *World, argv []Node) (Node, error) {
 }
 
 func funMapC(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	err := MapCar(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
 	return argv[1], err
 }
 
 func funMapCan(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	list := []Node{}
@@ -243,7 +240,7 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 }
 
 func funMapList(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	var buffer ListBuilder
@@ -252,18 +249,15 @@ func funMapList(ctx context.Context, w *World, argv []Node) (Node, error) {
 }
 
 func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	err := mapList(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
 	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	list := []Node{}
-- 
2.43.0


From 96f4017cdfdd2e8b1d827f854f6181316a8e7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 023/105] fix: subseq rejects positions outside of the sequence

---
 sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sequence.go b/sequence.go
index 4b357b0..b244102 100644
--- a/sequence.go
+++ b/sequence.go
@@ -318,6 +318,9 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if start < 0 || end < start {
+		return nil, ErrIndexOutOfRange
+	}
 	var buffer SeqBuilder
 	if _, ok := args[0].(String); ok {
 		buffer = &StringBuilder{}
@@ -335,6 +338,9 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 		count++
 		return
 	})
+	if err == nil && count < end {
+		return nil, ErrIndexOutOfRange
+	}
 	return buffer.Sequence(), ignoreEOF(err)
 }
 
-- 
2.43.0


From bf90d1b592fa1c0ac92ee5b9a9d1cf5d13dae7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 024/105] fix: storing into a string by setf elt, and outside
 of a list by setf elt or subseq

---
 embed/set-elt.lsp     | 2 +-
 embed/swap-elt.lsp    | 1 +
 embed/swap-subseq.lsp | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..6db5d62 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,4 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
+  `(if (and (basic-array-p ,seq) (not (stringp ,seq)))
      (set-aref ,newvalue ,seq ,@z)
      (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
diff --git a/embed/swap-elt.lsp b/embed/swap-elt.lsp
index 8f24396..daa8229 100644
--- a/embed/swap-elt.lsp
+++ b/embed/swap-elt.lsp
@@ -5,6 +5,7 @@
       (create-string 1 newvalue)
       (subseq source (1+ z) (length source)))
     (let ((s source))
+      (subseq source z (1+ z))
       (while s
         (if (zerop z)
           (set-car newvalue s))
diff --git a/embed/swap-subseq.lsp b/embed/swap-subseq.lsp
index 06f70fd..d21e836 100644
--- a/embed/swap-subseq.lsp
+++ b/embed/swap-subseq.lsp
@@ -2,6 +2,7 @@
   (if (stringp seq)
     (string-append (subseq seq 0 start) newvalue (subseq seq end (length seq)))
     (let ((orig seq))
+      (subseq seq start end)
       (while seq
         (if (and (<= start 0)
                  (> end 0)
-- 
2.43.0


From a7f2bd2d051fd7cefc5c048e53d23007f88d9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:04 +0000
Subject: [PATCH 025/105] fix: nthcdr of the minimum integer is the list itself

---
 embed/nthcdr.lsp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/embed/nthcdr.lsp b/embed/nthcdr.lsp
index 6f4e1c0..a5425ee 100644
--- a/embed/nthcdr.lsp
+++ b/embed/nthcdr.lsp
@@ -1,6 +1,7 @@
 (lambda (n x)
   (block nil
-    (while (and (>= (decf n) 0) x)
+    (while (and (> n 0) x)
       (unless (consp x) (return nil))
-      (setq x (cdr x)))
+      (setq x (cdr x))
+      (setq n (1- n)))
     x))
-- 
2.43.0


From 890c48131b996cfe168c119c274f61d3790bf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 026/105] fix: set-nthcdr does not walk into the tail it has
 stored

---
 embed/set-nthcdr.lsp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..b590537 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -1,7 +1,8 @@
 (lambda (newvalue z source)
-  (let ((s source))
-    (while s
+  (let ((s source) (rest nil))
+    (while (and s (> z 0))
       (setq z (1- z))
+      (setq rest (cdr s))
       (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
+      (setq s rest))
     source))
-- 
2.43.0


From 07519a8cea26894c6a78c5f5087826e00af6b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 027/105] fix: string-index with a start outside of the string

---
 string.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index a0c5856..ae45ca5 100644
--- a/string.go
+++ b/string.go
@@ -167,7 +167,13 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 	}
 	str := _str.String()
 
-	for i := 0; i < start && len(str) > 0; i++ {
+	if start < 0 {
+		start = 0
+	}
+	for i := 0; i < start; i++ {
+		if len(str) <= 0 {
+			return Null, nil
+		}
 		_, siz := utf8.DecodeRuneInString(str)
 		str = str[siz:]
 	}
-- 
2.43.0


From 65acdf5c9513c780a8255eabfb0f1cfad1e60a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 028/105] fix: set-aref compares an index with its own
 dimension

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index e3c03da..5410fac 100644
--- a/array.go
+++ b/array.go
@@ -243,7 +243,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			return nil, err
 		}
 		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || index >= Integer(array.dim[0]) {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
-- 
2.43.0


From 09dd758cd912acdb4a524110027eaf594483ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 029/105] fix: create-array does not overflow while it computes
 the size

---
 array.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 5410fac..9d58919 100644
--- a/array.go
+++ b/array.go
@@ -140,6 +140,7 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 	}
 
 	_dim := make([]int, 0, 2)
+	const limit = 1234567890
 	size := 1
 	for IsSome(dim) {
 		var _n Node
@@ -159,12 +160,12 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 				ExpectedClass: integerClass,
 			})
 		}
+		if n >= limit || size*int(n) >= limit {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		_dim = append(_dim, int(n))
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
-- 
2.43.0


From d3d037f94d36998ce8c570624cc71f99bc4d17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 030/105] fix: array-dimensions returns a proper list

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 9d58919..68a7781 100644
--- a/array.go
+++ b/array.go
@@ -273,7 +273,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	var cons Node = Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
-- 
2.43.0


From 3a2b3321fd5636c4e8cb218ab9b0f3f98b89345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 031/105] fix: setf subseq of a string rejects reversed bounds

---
 embed/swap-subseq.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/swap-subseq.lsp b/embed/swap-subseq.lsp
index d21e836..e8c0515 100644
--- a/embed/swap-subseq.lsp
+++ b/embed/swap-subseq.lsp
@@ -1,8 +1,8 @@
 (lambda (seq start end newvalue)
+  (subseq seq start end)
   (if (stringp seq)
     (string-append (subseq seq 0 start) newvalue (subseq seq end (length seq)))
     (let ((orig seq))
-      (subseq seq start end)
       (while seq
         (if (and (<= start 0)
                  (> end 0)
-- 
2.43.0


From 65814c56fb9b80f08c06e16b6fda493bcf2d75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 032/105] fix: let* makes a scope for each variable

---
 setq.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..cb42e58 100644
--- a/setq.go
+++ b/setq.go
@@ -125,12 +125,20 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
+	newWorld := w
+	for IsSome(list) {
+		var item Node
 
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, newWorld, List(item), lexical); err != nil {
+			return nil, err
+		}
+		// a closure made by an initial form must not see the bindings after it
+		newWorld = newWorld.Let(lexical)
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
 }
-- 
2.43.0


From 7a2ce63b684a251e42e577e98f124c4b794b0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 033/105] fix: a function body may call a lambda expression

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..74190b3 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,9 +89,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From f4946e4b3eb740adf80bfb750018fa3aaf565c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 034/105] fix: local and redefined functions hide macros inside
 of function bodies

---
 lambda.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lambda.go b/lambda.go
index 74190b3..4f12c81 100644
--- a/lambda.go
+++ b/lambda.go
@@ -91,12 +91,12 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	if !ok {
 		return nil
 	}
-	macro, ok := w.macro[symbol]
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
+	}
+	macro, ok := f.(*_Macro)
 	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
 		ls, ok := f.(*LispString)
 		if !ok {
 			return nil
-- 
2.43.0


From 2e326a00a59a83a47071ced9a643a125eaee93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 035/105] fix: apply evaluates its arguments from left to right
 and rejects an improper last argument

---
 lambda.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index 4f12c81..5f70e41 100644
--- a/lambda.go
+++ b/lambda.go
@@ -467,13 +467,20 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
+			err = SeqEach(ctx, w, value, func(n Node) error {
 				newargs.Add(ctx, w, Uneval{n})
 				return nil
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		value, err = w.Eval(ctx, value)
+		if err != nil {
+			return nil, err
+		}
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From eda2c767eb4b0c30052cfa22ec991afe8ee5e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 036/105] fix: return and return-from leave the lexically
 enclosing block of their own activation

---
 lambda.go |  4 ----
 progn.go  | 50 +++++++++++++++++++++++++++++++-------------------
 world.go  | 24 ++++++++++++------------
 3 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/lambda.go b/lambda.go
index 5f70e41..34795c5 100644
--- a/lambda.go
+++ b/lambda.go
@@ -306,10 +306,6 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			lexical[name] = value
 		}
 	}
-	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-		return errEarlyReturns.Value, nil
-	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
diff --git a/progn.go b/progn.go
index 9fe2110..cd76985 100644
--- a/progn.go
+++ b/progn.go
@@ -6,9 +6,26 @@ import (
 	"fmt"
 )
 
+// _Block is one activation of (block)
+type _Block struct {
+	name Symbol
+	done bool
+}
+
+// findBlock returns the innermost (block) around the running code whose name is name
+func (w *World) findBlock(name Symbol) (*_Block, bool) {
+	for ; w != nil; w = w.parent {
+		if w.block != nil && w.block.name == name {
+			return w.block, !w.block.done
+		}
+	}
+	return nil, false
+}
+
 type _ErrEarlyReturns struct {
 	Value Node
 	Name  Symbol
+	block *_Block
 }
 
 func (e *_ErrEarlyReturns) Error() string {
@@ -19,13 +36,11 @@ func (e *_ErrEarlyReturns) Error() string {
 }
 
 func funReturn(ctx context.Context, w *World, arg Node) (Node, error) {
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nulSymbol]; !ok {
+	block, ok := w.findBlock(nulSymbol)
+	if !ok {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", nulSymbol.String()))
 	}
-	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol}
+	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol, block: block}
 }
 
 func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
@@ -43,17 +58,15 @@ func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
 	} else {
 		symbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[symbol]; !ok {
+	block, ok := w.findBlock(symbol)
+	if !ok {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", symbol.String()))
 	}
 	value, err := w.Eval(ctx, argv[1])
 	if err != nil {
 		return nil, err
 	}
-	return nil, &_ErrEarlyReturns{Value: value, Name: symbol}
+	return nil, &_ErrEarlyReturns{Value: value, Name: symbol, block: block}
 }
 
 func Progn(ctx context.Context, w *World, n Node) (value Node, err error) {
@@ -87,16 +100,15 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	} else {
 		nameSymbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nameSymbol]; !ok {
-		defer delete(w.blockName, nameSymbol)
-		w.blockName[nameSymbol] = struct{}{}
-	}
+	block := &_Block{name: nameSymbol}
+	defer func() { block.done = true }()
+
+	nw := w.Let(Variables{})
+	nw.block = block
+
 	var errEarlyReturns *_ErrEarlyReturns
-	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == nameSymbol {
+	rv, err := Progn(ctx, nw, statements)
+	if errors.As(err, &errEarlyReturns) && errEarlyReturns.block == block {
 		return errEarlyReturns.Value, nil
 	}
 	return rv, err
diff --git a/world.go b/world.go
index 348d176..eca614c 100644
--- a/world.go
+++ b/world.go
@@ -97,18 +97,17 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
-	handler   Callable
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
+	macro    map[Symbol]*_Macro
+	handler  Callable
+	global   Scope
+	defun    FuncScope
+	dynamic  Variables
+	stdout   *_WriterNode
+	errout   *_WriterNode
+	stdin    _ReaderNode
+	startup  sync.Once
+	catchTag map[Node]struct{}
+	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -116,6 +115,7 @@ type World struct {
 	parent *World
 	funcs  FuncScope
 	vars   Scope
+	block  *_Block
 }
 
 type _Reader interface {
-- 
2.43.0


From b3aba3bb3bea84adff4bdd3f157d44bc83ac4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:53 +0000
Subject: [PATCH 037/105] fix: go jumps to the lexically enclosing tagbody of
 its own activation

---
 progn.go | 45 +++++++++++++++++++++++++++++++--------------
 world.go | 10 +++++-----
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/progn.go b/progn.go
index cd76985..8993238 100644
--- a/progn.go
+++ b/progn.go
@@ -348,8 +348,27 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	return value, nil
 }
 
+// _TagBody is one activation of (tagbody)
+type _TagBody struct {
+	tags map[Symbol]struct{}
+	done bool
+}
+
+// findTagBody returns the innermost (tagbody) around the running code which has the tag
+func (w *World) findTagBody(tag Symbol) (*_TagBody, bool) {
+	for ; w != nil; w = w.parent {
+		if w.tagBody != nil {
+			if _, ok := w.tagBody.tags[tag]; ok {
+				return w.tagBody, !w.tagBody.done
+			}
+		}
+	}
+	return nil, false
+}
+
 type _ErrTagBody struct {
-	tag Symbol
+	tag  Symbol
+	body *_TagBody
 }
 
 func (t *_ErrTagBody) Error() string {
@@ -365,21 +384,22 @@ func cmdGo(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
-	if _, ok := w.goTag[symbol]; !ok {
+	body, ok := w.findTagBody(symbol)
+	if !ok {
 		return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
 	}
-	return Null, &_ErrTagBody{tag: symbol}
+	return Null, &_ErrTagBody{tag: symbol, body: body}
 }
 
 func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 	tag := map[Symbol]Node{}
 
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
+	body := &_TagBody{tags: map[Symbol]struct{}{}}
+	defer func() { body.done = true }()
+
+	w = w.Let(Variables{})
+	w.tagBody = body
+
 	for _args := args; IsSome(_args); {
 		var current Node
 		var err error
@@ -389,10 +409,7 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := current.(Symbol); ok {
-			if _, ok := w.goTag[symbol]; !ok {
-				w.goTag[symbol] = struct{}{}
-				defer delete(w.goTag, symbol)
-			}
+			body.tags[symbol] = struct{}{}
 		}
 	}
 mainloop:
@@ -413,7 +430,7 @@ mainloop:
 			continue
 		}
 		var t *_ErrTagBody
-		if !errors.As(err, &t) {
+		if !errors.As(err, &t) || t.body != body {
 			return nil, err
 		}
 		if next, ok := tag[t.tag]; ok {
diff --git a/world.go b/world.go
index eca614c..fa47d75 100644
--- a/world.go
+++ b/world.go
@@ -107,15 +107,15 @@ type shared struct {
 	stdin    _ReaderNode
 	startup  sync.Once
 	catchTag map[Node]struct{}
-	goTag    map[Symbol]struct{}
 }
 
 type World struct {
 	*shared
-	parent *World
-	funcs  FuncScope
-	vars   Scope
-	block  *_Block
+	parent  *World
+	funcs   FuncScope
+	vars    Scope
+	block   *_Block
+	tagBody *_TagBody
 }
 
 type _Reader interface {
-- 
2.43.0


From 2616edfda5ac754c79a79825e8d8f2cfd1bc9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 038/105] fix: throw reaches the innermost catch whose tag is
 eql, whatever the tag is

---
 progn.go | 30 ++++++++++++++++--------------
 world.go |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/progn.go b/progn.go
index 8993238..9cd0c07 100644
--- a/progn.go
+++ b/progn.go
@@ -114,9 +114,15 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	return rv, err
 }
 
+// _Catcher is one activation of (catch)
+type _Catcher struct {
+	tag Node
+}
+
 type _ErrThrown struct {
 	Value   Node
 	TagForm Node
+	catcher *_Catcher
 }
 
 func (e *_ErrThrown) Error() string {
@@ -129,30 +135,26 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	catcher := &_Catcher{tag: tagForm}
+	catchers := w.catchers
+	w.catchers = append(catchers[:len(catchers):len(catchers)], catcher)
+	defer func() { w.catchers = catchers }()
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.catcher == catcher {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	for i := len(w.catchers) - 1; i >= 0; i-- {
+		if catcher := w.catchers[i]; catcher.tag.Equals(tagForm, STRICT) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value, catcher: catcher}
+		}
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
diff --git a/world.go b/world.go
index fa47d75..4b45f4f 100644
--- a/world.go
+++ b/world.go
@@ -106,7 +106,7 @@ type shared struct {
 	errout   *_WriterNode
 	stdin    _ReaderNode
 	startup  sync.Once
-	catchTag map[Node]struct{}
+	catchers []*_Catcher
 }
 
 type World struct {
-- 
2.43.0


From ad64cd991a67340ca4e160cea2815e02d34e090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:20 +0000
Subject: [PATCH 039/105] fix: unwind-protect returns the value of its form

---
 progn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/progn.go b/progn.go
index 9cd0c07..71c8cee 100644
--- a/progn.go
+++ b/progn.go
@@ -330,11 +330,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
-- 
2.43.0


From 420d0f9d0a7937ac7ae571769026491434b2430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 040/105] fix: a cond clause without forms has the value of its
 test

---
 progn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progn.go b/progn.go
index 71c8cee..3269723 100644
--- a/progn.go
+++ b/progn.go
@@ -175,6 +175,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From 5861f3e26a542e22a25aed3dc73b0eaa9ed69c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 041/105] fix: case compares its keys with eql

---
 progn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index 3269723..e581185 100644
--- a/progn.go
+++ b/progn.go
@@ -212,7 +212,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From e4c50f25ebb0b4a463386a5781a4dad64f9ee457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 042/105] fix: and and or accept no forms

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index c6996f0..6f99fee 100644
--- a/operator.go
+++ b/operator.go
@@ -149,6 +149,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -167,6 +170,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
-- 
2.43.0


From 4bc93f8d80069e92146b5912dbc7883547645738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 043/105] fix: dynamic-let evaluates all values before it binds
 and restores a variable which appears twice

---
 setq.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/setq.go b/setq.go
index cb42e58..f7ac597 100644
--- a/setq.go
+++ b/setq.go
@@ -241,7 +241,11 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
+	_, backuped := D.backups[symbol]
+	_, removed := D.removes[symbol]
+	if backuped || removed {
+		// the value from before is kept already
+	} else if orig, ok := D.world.dynamic.Get(symbol); ok {
 		D.backups[symbol] = orig
 	} else {
 		D.removes[symbol] = struct{}{}
@@ -263,6 +267,11 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, err
 	}
 
+	type bindT struct {
+		symbol Symbol
+		value  Node
+	}
+	binds := []bindT{}
 	for IsSome(vars) {
 		var varAndValue Node
 		varAndValue, vars, err = Shift(vars)
@@ -270,7 +279,7 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			binds = append(binds, bindT{symbol: symbol, value: Null})
 		} else {
 			var symbolNode Node
 			var value Node
@@ -290,8 +299,12 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			binds = append(binds, bindT{symbol: symbol, value: value})
 		}
 	}
+	// no variable may be bound before all of the values are evaluated
+	for _, b := range binds {
+		D.Set(b.symbol, b.value)
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From e68fa79f5323ea035a26ba812d04a2c2cafb6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:24 +0000
Subject: [PATCH 044/105] fix: a tail call binds its arguments like any other
 call

---
 lambda.go | 62 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/lambda.go b/lambda.go
index 34795c5..4bbb1eb 100644
--- a/lambda.go
+++ b/lambda.go
@@ -210,20 +210,12 @@ func (*_ErrTailRecOpt) Error() string {
 	return "_ErrTailRecOpt was not catched."
 }
 
-func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
-	if err := checkContext(ctx); err != nil {
-		// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-		return nil, err
-	}
+// bind evaluates the arguments n and returns the variables for one run of the body.
+func (L *_Lambda) bind(ctx context.Context, w *World, n Node, traceCount int, traceDo bool) (Variables, error) {
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := trace[L.name]
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		trace[L.name]++
-		defer func() {
-			trace[L.name]--
-		}()
 	}
 	for _, name := range L.param {
 		if name == slashSymbol {
@@ -251,7 +243,8 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 
 	if IsSome(n) && L.rest == nulSymbol {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		_, err := raiseProgramError(ctx, w, ErrTooManyArguments)
+		return nil, err
 	}
 	if L.rest != nulSymbol {
 		var values Node = nil
@@ -274,10 +267,29 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	return lexical, nil
+}
+
+func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
+		return nil, err
+	}
+	traceCount, traceDo := trace[L.name]
+	if traceDo {
+		trace[L.name]++
+		defer func() {
+			trace[L.name]--
+		}()
+	}
 
 	var result Node
 	var err error
 	for {
+		lexical, err1 := L.bind(ctx, w, n, traceCount, traceDo)
+		if err1 != nil {
+			return nil, err1
+		}
 		newWorld := L.lexical.Let(lexical)
 		result, err = prognWithTailRecOpt(ctx, newWorld, L.code, L.name)
 
@@ -286,24 +298,14 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			break
 		}
 		n = errTailRecOpt.params
-		foundSlash = false
-		for _, name := range L.param {
-			if name == slashSymbol {
-				foundSlash = true
-				continue
-			}
-			if foundSlash {
-				lexical[name] = Null
-				continue
-			}
-			var err error
-			var value Node
-			value, n, err = Shift(n)
-			if err != nil {
-				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
-			}
-			lexical[name] = value
+		if f, err := L.lexical.GetFunc(L.name); err != nil {
+			return nil, err
+		} else if f != Callable(L) {
+			// L was redefined while it was running
+			return f.Call(ctx, w, n)
+		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
 		}
 	}
 	if traceDo {
@@ -338,7 +340,7 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 		if err != nil {
 			return err
 		}
-		evaled = &Cons{Car: value, Cdr: evaled}
+		evaled = &Cons{Car: Uneval{value}, Cdr: evaled}
 	}
 	evaled, err = NReverse(ctx, w, evaled)
 	if err != nil {
-- 
2.43.0


From cbba670f76c1148c401d6bca530e137ec26ad81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 045/105] fix: a handler is called once, at the place of the
 error, and may leave it by a non-local exit

---
 cond.go  | 77 ++++++++++++++++++++++++++++++++++++++++++++------------
 error.go | 25 ++++++++----------
 world.go |  2 +-
 3 files changed, 73 insertions(+), 31 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..a61b8fa 100644
--- a/cond.go
+++ b/cond.go
@@ -6,6 +6,55 @@ import (
 	"fmt"
 )
 
+// _Handler is one activation of (with-handler)
+type _Handler struct {
+	Callable
+	outer *_Handler
+}
+
+// _ErrHandled is an error for which the handler was called already,
+// or the error with which the handler itself was left.
+type _ErrHandled struct {
+	error
+	handler *_Handler
+}
+
+func (e *_ErrHandled) Unwrap() error {
+	return e.error
+}
+
+func (h *_Handler) hasHandled(err error) bool {
+	var e *_ErrHandled
+	for errors.As(err, &e) {
+		if e.handler == h {
+			return true
+		}
+		err = e.error
+	}
+	return false
+}
+
+// callHandler calls the current handler. The handlers around it are active while it is running.
+func (w *World) callHandler(ctx context.Context, condition Node) (Node, error) {
+	h := w.handler
+	w.handler = h.outer
+	defer func() { w.handler = h }()
+	rv, err := h.Call(ctx, w, UnevalList(condition))
+	if err != nil {
+		return nil, &_ErrHandled{error: err, handler: h}
+	}
+	return rv, nil
+}
+
+// continuedValue returns the value with which the handler continued from condition
+func continuedValue(condition Node, err error) (Node, bool) {
+	var e *_ErrContinueCondition
+	if errors.As(err, &e) && condition.Equals(e.Cond, STRICT) {
+		return e.Value, true
+	}
+	return nil, false
+}
+
 func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	_handler, node, err := w.ShiftAndEvalCar(ctx, node)
 	if err != nil {
@@ -17,22 +66,17 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = handler
+	w.handler = &_Handler{Callable: handler, outer: oldHandler}
 	value, err := Progn(ctx, w, node)
 
-	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
-	// 呼ばなければいけないが、 古いコードは error を返して、error の処理元で
-	// ハンドラー関数を呼ぶことを想定し、エラー発生箇所で呼べていない
-	//
-	// エラー発生箇所でハンドラー関数が呼ばれて、ここに戻る時は大域脱出系エラーで
-	// 戻ってくるはずなので、そういった場合は、ここでハンドラー関数を呼ばない
-	// ようにしている
-	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
+	// エラー発生箇所でハンドラー関数が呼ばれていた場合は、ここでは呼ばない。
+	// error を返しているだけで、エラー発生箇所でハンドラー関数を呼べていない
+	// 古いコードのエラーについては、ここでハンドラー関数を呼ぶ。
 
 	var e1 *_ErrEarlyReturns // block & return-from
 	var e2 *_ErrThrown       // catch & throw
 	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || w.handler.hasHandled(err) {
 		return value, err
 	}
 
@@ -42,9 +86,9 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	var err2 error
 	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
+		_, err2 = w.callHandler(ctx, errorValue)
 	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
+		_, err2 = w.callHandler(ctx, ErrorNode{Value: err})
 	}
 	if err2 != nil {
 		return nil, err2
@@ -81,10 +125,11 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
-	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
-		return e.Value, nil
+	rv, err := w.callHandler(ctx, cond)
+	if IsSome(continueable) {
+		if value, ok := continuedValue(cond, err); ok {
+			return value, nil
+		}
 	}
 	return rv, err
 }
diff --git a/error.go b/error.go
index 8c84762..a72f76f 100644
--- a/error.go
+++ b/error.go
@@ -134,24 +134,21 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
-
 func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
 	var zero T
-	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
-		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
-		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
-				return v, nil
-			}
+	handler := w.handler
+	if handler == nil {
+		return zero, condition
+	}
+	_, err := w.callHandler(ctx, condition)
+	if value, ok := continuedValue(condition, err); ok {
+		if v, ok := value.(T); ok && cont {
+			return v, nil
 		}
+	} else if err != nil {
+		return zero, err
 	}
-	return zero, condition
+	return zero, &_ErrHandled{error: condition, handler: handler}
 }
 
 func ExpectInterface[T Node](ctx context.Context, w *World, v Node, class Class) (T, error) {
diff --git a/world.go b/world.go
index 4b45f4f..d32ce08 100644
--- a/world.go
+++ b/world.go
@@ -98,7 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	macro    map[Symbol]*_Macro
-	handler  Callable
+	handler  *_Handler
 	global   Scope
 	defun    FuncScope
 	dynamic  Variables
-- 
2.43.0


From 23c53c681068859e553c9472e603ac79ad55ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 046/105] fix: embedded functions belong to the World which
 uses them

---
 lambda.go | 26 +++++++++++++++++---------
 world.go  |  3 ++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lambda.go b/lambda.go
index 4bbb1eb..906222c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -619,19 +619,27 @@ func (f *Function) Call(ctx context.Context, w *World, list Node) (Node, error)
 }
 
 type LispString struct {
-	S       string
-	compile Node
+	S string
 }
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
-	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
-		if err != nil {
-			return nil, err
-		}
-		L.compile = c
+	if c, ok := w.compiled[L]; ok {
+		return c, nil
+	}
+	// neither the bindings around the first call nor other Worlds may be seen from L.S
+	root := w
+	for root.parent != nil {
+		root = root.parent
+	}
+	c, err := root.Interpret(ctx, L.S)
+	if err != nil {
+		return nil, err
+	}
+	if w.compiled == nil {
+		w.compiled = make(map[*LispString]Node)
 	}
-	return L.compile, nil
+	w.compiled[L] = c
+	return c, nil
 }
 
 func (L *LispString) Call(ctx context.Context, w *World, n Node) (Node, error) {
diff --git a/world.go b/world.go
index d32ce08..a1b104a 100644
--- a/world.go
+++ b/world.go
@@ -97,6 +97,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
+	compiled map[*LispString]Node
 	macro    map[Symbol]*_Macro
 	handler  *_Handler
 	global   Scope
@@ -479,7 +480,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
-- 
2.43.0


From 92d7ef2776d49c53880a7517caed2028e0d3e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 047/105] fix: cerror makes its continue string

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..32909c1 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply #'format str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From 0fad1ce990059141b4869d7f8f96ee2cefa5d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:03 +0000
Subject: [PATCH 048/105] fix: for evaluates the initial forms from left to
 right

---
 embed/for.lsp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..4005887 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -13,6 +13,7 @@
             (setq steps (append steps (list var step))))))
         (setq iters (cdr iters))
       ) ; while
+    (setq inits (nreverse inits))
     (if (> (length steps) 1)
       `(let ,inits (while (not ,test) ,@body ,steps) ,result)
       `(let ,inits (while (not ,test) ,@body) ,result))
-- 
2.43.0


From 1bffd9c0913a9f2fcfa7b3bb4a0f2278832f0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 049/105] fix: for accepts any number of result forms

---
 embed/for.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/for.lsp b/embed/for.lsp
index 4005887..1c398ae 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -2,7 +2,7 @@
   (let ((inits nil)
         (steps '(psetq))
         (test (car test-result))
-        (result (elt test-result 1)))
+        (result (cons 'progn (cdr test-result))))
     (while iters
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
-- 
2.43.0


From bdd457a971fb973efab4e05303c4002e7108d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:13 +0000
Subject: [PATCH 050/105] fix: Pair.Set panicked after it had stored the value

---
 world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/world.go b/world.go
index a1b104a..3c9f2a6 100644
--- a/world.go
+++ b/world.go
@@ -88,6 +88,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
-- 
2.43.0


From 096fb526b4dc2658b879ca71cdb5e7008032e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:18 +0000
Subject: [PATCH 051/105] fix: dumping a session inside of flet panicked

---
 world.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/world.go b/world.go
index 3c9f2a6..ad70a66 100644
--- a/world.go
+++ b/world.go
@@ -622,6 +622,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From aafa5637d7c6812bfab26015ac52a06851b83a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 052/105] fix: ignore-errors does not stop non-local exits,
 quit and cancellation

---
 progn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/progn.go b/progn.go
index e581185..ff4d974 100644
--- a/progn.go
+++ b/progn.go
@@ -462,6 +462,14 @@ mainloop:
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		var e1 *_ErrEarlyReturns      // block & return-from
+		var e2 *_ErrThrown            // catch & throw
+		var e3 *_ErrTagBody           // tagbody & go
+		var e4 *_ErrContinueCondition // with-handler & continue-condition
+		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || errors.As(err, &e4) ||
+			errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From 6521c4299fa179dc97037a8286b2c1b4a4f641b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 053/105] fix: the body of a method sees the variables around
 defmethod, not around the call

---
 generic.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index 87b9f49..7515a94 100644
--- a/generic.go
+++ b/generic.go
@@ -220,7 +220,8 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	lexical := w
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
 		for i, v := range args {
 			if i >= len(paramNames) {
@@ -233,7 +234,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			}
 			vars[paramNames[i]] = v
 		}
-		return Progn(ctx, w.Let(vars), code)
+		return Progn(ctx, lexical.Let(vars), code)
 	}
 	generic.methods = append(generic.methods, method)
 	return name, nil
-- 
2.43.0


From fa64e94366e4ebe8332be7304a6c1ee47ed3622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 054/105] fix: the rest parameter of a method is bound even if
 there are no more arguments

---
 generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generic.go b/generic.go
index 7515a94..08c9e3b 100644
--- a/generic.go
+++ b/generic.go
@@ -223,6 +223,9 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 	lexical := w
 	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if method.restType != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
-- 
2.43.0


From 944415421c5d6e6cb87efaccb334d5ce2ce834c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:12 +0000
Subject: [PATCH 055/105] fix: a parameter of a method may be written without a
 class

---
 generic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generic.go b/generic.go
index 08c9e3b..b40363d 100644
--- a/generic.go
+++ b/generic.go
@@ -174,6 +174,9 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			if IsSome(params) {
 				return nil, ErrTooManyArguments
 			}
+			if _, ok := t1.(Symbol); ok {
+				t1 = List(t1, objectClass)
+			}
 			_name, t1, err = Shift(t1)
 			if err != nil {
 				return nil, err
@@ -197,6 +200,10 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			break
 		}
 		var _pn1 Node
+		if _, ok := t1.(Symbol); ok {
+			// a parameter without a class accepts any object
+			t1 = List(t1, objectClass)
+		}
 		_pn1, t1, err = Shift(t1)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 955ca390c7fe176cacf8e9b1960d0f823e91e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 056/105] fix: case-using evaluates its predicate form once and
 its keys never

---
 embed/case-using.lsp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 4665747..77683b7 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,5 +1,5 @@
 (lambda-macro (predform keyform &rest body)
-  (let ((keyform_ (gensym)))
+  (let ((predform_ (gensym)) (keyform_ (gensym)))
     (setq body
           (mapcar
             (lambda (entry)
@@ -11,12 +11,12 @@
                       'or
                       (mapcar
                         (lambda (key1)
-                          (list 'funcall predform keyform_ key1))
+                          (list 'funcall predform_ keyform_ (list 'quote key1)))
                         (car entry))))
                       (cdr entry)))
                   ) body))
     (setq body (cons 'cond body))
-    (setq body `(let ((,keyform_ ,keyform)) ,body))
+    (setq body `(let ((,predform_ ,predform) (,keyform_ ,keyform)) ,body))
     ;(format t "~s~%" body)
     ;body
     ))
-- 
2.43.0


From 459601146790a486b25574b0da0408d7949d82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 057/105] fix: a macro rejects more operands than it has
 parameters

---
 macro.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macro.go b/macro.go
index 3e40c99..a822df2 100644
--- a/macro.go
+++ b/macro.go
@@ -102,6 +102,9 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	if IsSome(n) && m.rest == nulSymbol {
+		return nil, ErrTooManyArguments
+	}
 	lexical[m.rest] = n
 	joinedForm := _JoinedForm{}
 	for cons, ok := n.(*Cons); ok && IsSome(cons); cons, ok = cons.Cdr.(*Cons) {
-- 
2.43.0


From a850a8d8518d07d52db7748ad0b90147d45fef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 058/105] fix: too many arguments are signaled like too few
 arguments

---
 lambda.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 906222c..88aafe4 100644
--- a/lambda.go
+++ b/lambda.go
@@ -526,7 +526,7 @@ func raiseControlError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func raiseProgramError(ctx context.Context, w *World, e error) (Node, error) {
-	if _, ok := e.(interface{ ClassOf() Class }); ok {
+	if _, ok := e.(interface{ ClassOf() Class }); ok && e != error(ErrTooManyArguments) {
 		return nil, e
 	}
 	condition := ProgramError{err: e}
-- 
2.43.0


From 76b3731ca243d37d6012bec97bd32c6c83d1e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 059/105] fix: signal-condition without a handler returns the
 condition itself

---
 cond.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cond.go b/cond.go
index a61b8fa..8990068 100644
--- a/cond.go
+++ b/cond.go
@@ -115,9 +115,10 @@ var reportCondition = &_Generic{
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	if w.handler == nil {
 		buffer := &StringBuilder{}
+		var noMethod *_UndefinedEntity
 		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 			return nil, errors.New(buffer.String())
-		} else if !errors.Is(err, ErrNoMatchMethods) {
+		} else if !errors.As(err, &noMethod) || noMethod.name != symReportCondition {
 			return nil, fmt.Errorf("%w in (report-condition)", err)
 		}
 		if err, ok := cond.(error); ok {
-- 
2.43.0


From ab61283e803c4f65af4aebdf2d50653759212608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 060/105] fix: methods of report-condition belong to the World
 in which they were defined

---
 cond.go  | 6 +++++-
 world.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cond.go b/cond.go
index 8990068..3dcad74 100644
--- a/cond.go
+++ b/cond.go
@@ -116,7 +116,11 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 	if w.handler == nil {
 		buffer := &StringBuilder{}
 		var noMethod *_UndefinedEntity
-		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
+		report, ok := w.defun.Get(symReportCondition)
+		if !ok {
+			report = reportCondition
+		}
+		if _, err := report.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 			return nil, errors.New(buffer.String())
 		} else if !errors.As(err, &noMethod) || noMethod.name != symReportCondition {
 			return nil, fmt.Errorf("%w in (report-condition)", err)
diff --git a/world.go b/world.go
index ad70a66..6b88a89 100644
--- a/world.go
+++ b/world.go
@@ -474,6 +474,11 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 		return value, true
 	}
 	if value, ok := autoLoadFunc[symbol]; ok {
+		if g, ok := value.(*_Generic); ok {
+			// methods belong to the World in which they were defined
+			value = &_Generic{Symbol: g.Symbol, argc: g.argc, rest: g.rest}
+			rw[symbol] = value
+		}
 		return value, true
 	}
 	fname := "embed/" + symbol.String() + ".lsp"
-- 
2.43.0


From ab45bb909ce5a5cdf249595087f2482e6fe39e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 061/105] fix: mapcar and the other mapping functions do not
 evaluate their function twice

---
 sequence.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sequence.go b/sequence.go
index b244102..5355be5 100644
--- a/sequence.go
+++ b/sequence.go
@@ -131,11 +131,7 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
@@ -205,11 +201,7 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 118b7fe2d21b9c3883223fb660093d03c8c5cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 062/105] fix: a quasiquote inside of a quasiquote keeps its
 own unquotes

---
 cmds.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmds.go b/cmds.go
index 7241dd0..1fb35f6 100644
--- a/cmds.go
+++ b/cmds.go
@@ -16,9 +16,15 @@ func cmdQuote(_ context.Context, _ *World, n Node) (Node, error) {
 	return argv[0], nil
 }
 
-func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
+// quasiQuote copies n and replaces the forms unquoted as often as n is quasiquoted.
+// depth is the number of quasiquotes in n around the current part.
+func quasiQuote(ctx context.Context, w *World, n Node, depth int) (Node, error) {
 	if cons, ok := n.(*Cons); ok {
-		if cons.Car == symUnquote {
+		if cons.Car == symUnquote && depth > 0 {
+			depth--
+		} else if cons.Car == backQuoteSymbol {
+			depth++
+		} else if cons.Car == symUnquote {
 			if cdrCons, ok := cons.Cdr.(*Cons); ok {
 				newCar, err := w.Eval(ctx, cdrCons.Car)
 				if err != nil {
@@ -28,11 +34,11 @@ func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 			}
 			return w.Eval(ctx, cons.Cdr)
 		}
-		newCar, err := quasiQuote(ctx, w, cons.Car)
+		newCar, err := quasiQuote(ctx, w, cons.Car, depth)
 		if err != nil {
 			return nil, err
 		}
-		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
+		newCdr, err := quasiQuote(ctx, w, cons.Cdr, depth)
 		if err != nil {
 			return nil, err
 		}
@@ -46,7 +52,7 @@ func cmdQuasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return quasiQuote(ctx, w, value)
+	return quasiQuote(ctx, w, value, 0)
 }
 
 func funAtom(_ context.Context, _ *World, arg Node) (Node, error) {
-- 
2.43.0


From ac9a2d9b624734c68538dc60e957536e6e5a7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 063/105] fix: the functions of labels hide macros in each
 other

---
 functionref.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/functionref.go b/functionref.go
index 24ccc4c..1100c64 100644
--- a/functionref.go
+++ b/functionref.go
@@ -119,6 +119,19 @@ func cmdLabels(ctx context.Context, w *World, list Node) (Node, error) {
 	}
 	lexical := Functions{}
 	nw := w.Flet(lexical)
+	// a macro hidden by any of the functions must not be expanded in their bodies
+	for rest := flist; HasValue(rest); {
+		var flist1 Node
+		flist1, rest, err = Shift(rest)
+		if err != nil {
+			return nil, err
+		}
+		if cons, ok := flist1.(*Cons); ok {
+			if symbol, ok := cons.Car.(Symbol); ok {
+				lexical[symbol] = &_Lambda{name: symbol}
+			}
+		}
+	}
 	for HasValue(flist) {
 		var flist1 Node
 		flist1, flist, err = Shift(flist)
-- 
2.43.0


From 0d3d2a37ed98ebd97b0355b6fe0471d2654b3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 064/105] fix: setf of elt and subseq evaluates the sequence
 once and accepts any list

---
 embed/set-elt.lsp    | 10 +++++++---
 embed/set-subseq.lsp |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 6db5d62..602da72 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,8 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (and (basic-array-p ,seq) (not (stringp ,seq)))
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((s (gensym)))
+    `(let ((,s ,seq))
+       (if (stringp ,s)
+         (setf ,seq (swap-elt ,newvalue ,s ,@z))
+         (if (basic-array-p ,s)
+           (set-aref ,newvalue ,s ,@z)
+           (swap-elt ,newvalue ,s ,@z))))))
diff --git a/embed/set-subseq.lsp b/embed/set-subseq.lsp
index 0cc337d..f8957aa 100644
--- a/embed/set-subseq.lsp
+++ b/embed/set-subseq.lsp
@@ -1,2 +1,6 @@
 (lambda-macro (newvalue seq start end)
-  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
+  (let ((s (gensym)))
+    `(let ((,s ,seq))
+       (if (stringp ,s)
+         (setf ,seq (swap-subseq ,s ,start ,end ,newvalue))
+         (swap-subseq ,s ,start ,end ,newvalue)))))
-- 
2.43.0


From a37b91628d3a15359ca0b27ff5c74bdd55664bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 065/105] fix: incf and decf evaluate the operands of their
 place once

---
 embed/decf.lsp | 24 ++++++++++++++++++++++--
 embed/incf.lsp | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/embed/decf.lsp b/embed/decf.lsp
index d768631..3a797d5 100644
--- a/embed/decf.lsp
+++ b/embed/decf.lsp
@@ -1,3 +1,23 @@
 (lambda-macro (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (- ,place ,delta))))
+  (let ((delta (if args (car args) 1)) (vars nil) (operands nil) (rest nil))
+    ; the operands of the place must not be evaluated twice
+    (if (consp place)
+      (progn
+        (setq rest (cdr place))
+        (if (and rest (eq (car place) 'elt))
+          ; a string is replaced in the place where it is
+          (progn
+            (setq operands (cons (car rest) operands))
+            (setq rest (cdr rest))))
+        (while rest
+          (if (consp (car rest))
+            (progn
+              (setq vars (cons (list (gensym) (car rest)) vars))
+              (setq operands (cons (car (car vars)) operands)))
+            (setq operands (cons (car rest) operands)))
+          (setq rest (cdr rest)))))
+    (if vars
+      (progn
+        (setq place (cons (car place) (reverse operands)))
+        `(let* ,(reverse vars) (setf ,place (- ,place ,delta))))
+      `(setf ,place (- ,place ,delta)))))
diff --git a/embed/incf.lsp b/embed/incf.lsp
index c279153..338cc90 100644
--- a/embed/incf.lsp
+++ b/embed/incf.lsp
@@ -1,3 +1,23 @@
 (lambda-macro (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (+ ,place ,delta))))
+  (let ((delta (if args (car args) 1)) (vars nil) (operands nil) (rest nil))
+    ; the operands of the place must not be evaluated twice
+    (if (consp place)
+      (progn
+        (setq rest (cdr place))
+        (if (and rest (eq (car place) 'elt))
+          ; a string is replaced in the place where it is
+          (progn
+            (setq operands (cons (car rest) operands))
+            (setq rest (cdr rest))))
+        (while rest
+          (if (consp (car rest))
+            (progn
+              (setq vars (cons (list (gensym) (car rest)) vars))
+              (setq operands (cons (car (car vars)) operands)))
+            (setq operands (cons (car rest) operands)))
+          (setq rest (cdr rest)))))
+    (if vars
+      (progn
+        (setq place (cons (car place) (reverse operands)))
+        `(let* ,(reverse vars) (setf ,place (+ ,place ,delta))))
+      `(setf ,place (+ ,place ,delta)))))
-- 
2.43.0


From 166c6f5cac23c5dcfaf08f2da51f4f790a72c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 066/105] fix: setf of assoc stores into the pair found by
 assoc only

---
 embed/set-assoc.lsp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..8574286 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -5,5 +5,7 @@
          (if (and (setq ,tmp (car ,L))
                   (consp ,tmp)
                   (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+           (progn
+             (set-car ,newvalue ,L)
+             (setq ,L nil))
+           (setq ,L (cdr ,L)))))))
-- 
2.43.0


From 52fae2be1cb4f256414ce52947c338842a863f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 067/105] fix: setf of setq is expanded

---
 embed/set-setq.lsp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/embed/set-setq.lsp b/embed/set-setq.lsp
index 66a7cf7..c591406 100644
--- a/embed/set-setq.lsp
+++ b/embed/set-setq.lsp
@@ -1,6 +1,4 @@
-(lambda-macro (newvalue name avlue)
-  (let ((name (elt expr 1))
-        (value (elt expr 2)))
-    `(progn
-       (setq ,name ,value)
-       (setf ,name ,newvalue))))
+(lambda-macro (newvalue name value)
+  `(progn
+     (setq ,name ,value)
+     (setf ,name ,newvalue)))
-- 
2.43.0


From 7f28c719a766f334001d9a2f3beb7163f2fe3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 068/105] fix: instancep of a built-in class agrees with
 class-of and subclassp

---
 builtinclass.go | 23 +++++++----------------
 class.go        |  4 ----
 cons.go         |  2 +-
 number.go       | 17 ++++-------------
 progn.go        |  4 ----
 5 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..771625e 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -13,10 +13,9 @@ type Class interface {
 }
 
 type _BuiltInClass struct {
-	name      Symbol
-	instanceP func(Node) bool
-	create    func() Node
-	super     []Class
+	name   Symbol
+	create func() Node
+	super  []Class
 }
 
 func (e *_BuiltInClass) InheritP(c Class) bool {
@@ -45,7 +44,8 @@ func (e *_BuiltInClass) Name() Symbol {
 }
 
 func (e *_BuiltInClass) InstanceP(n Node) bool {
-	return e.instanceP(n) || n.ClassOf().InheritP(e)
+	class := n.ClassOf()
+	return e == objectClass || class.Equals(e, STRICT) || class.InheritP(e)
 }
 
 func (e *_BuiltInClass) String() string {
@@ -62,19 +62,14 @@ func funClassOf(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var objectClass = &_BuiltInClass{
-	name:      NewSymbol("<object>"),
-	instanceP: func(Node) bool { return true },
-	create:    func() Node { return nil },
+	name:   NewSymbol("<object>"),
+	create: func() Node { return nil },
 }
 
 func newBuiltInClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			var value T
 			return value
@@ -86,10 +81,6 @@ func newAbstractClass[T Node](name string) *_BuiltInClass {
 	symbol := NewSymbol(name)
 	return &_BuiltInClass{
 		name: symbol,
-		instanceP: func(n Node) bool {
-			_, ok := n.(T)
-			return ok
-		},
 		create: func() Node {
 			return nil
 		},
diff --git a/class.go b/class.go
index a029bc0..2c67606 100644
--- a/class.go
+++ b/class.go
@@ -170,10 +170,6 @@ type _StandardClass struct {
 // because it does not inherit <built-in-class>.
 var standardClass = &_BuiltInClass{
 	name: NewSymbol("<standard-class>"),
-	instanceP: func(n Node) bool {
-		_, ok := n.(*_StandardClass)
-		return ok
-	},
 	create: func() Node {
 		classCounter++
 		return &_StandardClass{}
diff --git a/cons.go b/cons.go
index 6e30212..1348fa9 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
diff --git a/number.go b/number.go
index 8bdd4ca..20dd1f5 100644
--- a/number.go
+++ b/number.go
@@ -8,16 +8,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
-	instanceP: func(n Node) bool {
-		if _, ok := n.(Integer); ok {
-			return true
-		}
-		if _, ok := n.(Float); ok {
-			return true
-		}
-		return false
-	},
+	name: NewSymbol("<number>"),
 	create: func() Node {
 		return nil
 	},
@@ -90,7 +81,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -120,7 +111,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
@@ -176,7 +167,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
diff --git a/progn.go b/progn.go
index ff4d974..dbfbf1d 100644
--- a/progn.go
+++ b/progn.go
@@ -294,10 +294,6 @@ type ErrorNode struct {
 
 var errorClass = &_BuiltInClass{
 	name: NewSymbol("<error>"),
-	instanceP: func(value Node) bool {
-		_, ok := value.(error)
-		return ok
-	},
 	create: func() Node {
 		return nil
 	},
-- 
2.43.0


From b42268b50203a121cf8b059d64da4ac3cac9788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 069/105] fix: every class made by defclass is a subclass of
 <object>

---
 class.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/class.go b/class.go
index 2c67606..6171c5a 100644
--- a/class.go
+++ b/class.go
@@ -193,6 +193,9 @@ func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
+	if objectClass.Equals(class2, STRICT) {
+		return true
+	}
 	for _, s := range class1.Super {
 		if s.Equals(class2, STRICT) {
 			return true
-- 
2.43.0


From 72c1ad724d7706bdb229435dfd5de35ea14a2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 070/105] fix: the initform of the derived class overrides that
 of its super class

---
 class.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/class.go b/class.go
index 6171c5a..66c6d29 100644
--- a/class.go
+++ b/class.go
@@ -434,13 +434,6 @@ func (c *_StandardObject) GoString() string {
 }
 
 func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
-				return err
-			}
-		}
-	}
 	for name, slot1 := range classDef.Slot {
 		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
 			var err error
@@ -450,6 +443,13 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 			}
 		}
 	}
+	for _, super := range classDef.Super {
+		if uc, ok := super.(*_StandardClass); ok {
+			if err := reciever.callInitForm(uc); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 28cfbc61a201f2b228e3f6518b7b3223ff2eadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 071/105] fix: an initarg shared by slots initializes all of
 them

---
 class.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/class.go b/class.go
index 66c6d29..4dba62f 100644
--- a/class.go
+++ b/class.go
@@ -453,23 +453,20 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 	return nil
 }
 
-func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
+// callInitArg sets every slot which the initarg is given for
+func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) {
 	for name, slot := range classDef.Slot {
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
-				return true
 			}
 		}
 	}
 	for _, super := range classDef.Super {
 		if superUc, ok := super.(*_StandardClass); ok {
-			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
-			}
+			reciever.callInitArg(superUc, initArg, initVal)
 		}
 	}
-	return false
 }
 
 type Uneval struct {
-- 
2.43.0


From fce6453caec69807bd901314325793b0fa6e9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 072/105] fix: create reports an initarg which is not a symbol

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 4dba62f..70af952 100644
--- a/class.go
+++ b/class.go
@@ -525,7 +525,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From 0acd643cfb9b87fd17c05fd9f2011cb42c1cb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 073/105] fix: a class defined without slots can be created,
 and initialize-object is inherited

---
 class.go | 19 +++++++++++++------
 world.go |  8 +++++++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/class.go b/class.go
index 70af952..b045949 100644
--- a/class.go
+++ b/class.go
@@ -254,6 +254,19 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
+var initializeObject = &_Generic{
+	Symbol: symInitializeObject,
+	argc:   1,
+	rest:   true,
+	methods: []*_Method{
+		{
+			restType: objectClass,
+			types:    []Class{objectClass},
+			method:   defaultInitializeObject,
+		},
+	},
+}
+
 var classCounter = 0
 
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
@@ -347,12 +360,6 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		}
 	}
 	w.DefineGlobal(className, class)
-
-	registerMethod(w, symInitializeObject, class, &_Method{
-		restType: objectClass,
-		types:    []Class{class},
-		method:   defaultInitializeObject,
-	})
 	return className, nil
 }
 
diff --git a/world.go b/world.go
index 6b88a89..85073b3 100644
--- a/world.go
+++ b/world.go
@@ -364,6 +364,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("hash-table-count"):               Function1(funHashTableCount),
 	NewSymbol("if"):                             SpecialF(cmdIf),
 	NewSymbol("ignore-errors"):                  SpecialF(cmdIgnoreErrors),
+	symInitializeObject:                         initializeObject,
 	NewSymbol("instancep"):                      SpecialF(defInstanceP),
 	NewSymbol("integerp"):                       Function1(funAnyTypep[Integer]),
 	NewSymbol("internal-time-units-per-second"): Function0(funInternalTimeUnitPerSecond),
@@ -476,7 +477,12 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	if value, ok := autoLoadFunc[symbol]; ok {
 		if g, ok := value.(*_Generic); ok {
 			// methods belong to the World in which they were defined
-			value = &_Generic{Symbol: g.Symbol, argc: g.argc, rest: g.rest}
+			value = &_Generic{
+				Symbol:  g.Symbol,
+				argc:    g.argc,
+				rest:    g.rest,
+				methods: append([]*_Method(nil), g.methods...),
+			}
 			rw[symbol] = value
 		}
 		return value, true
-- 
2.43.0


From c6a0a49a35b22511a8784c7ba551473d70e0f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 074/105] fix: create rejects built-in classes whose zero value
 is unusable

---
 class.go       |  3 +--
 functionref.go |  2 +-
 hash.go        |  2 +-
 macro.go       |  4 ++--
 newtypes.go    | 10 +++++-----
 number.go      |  2 +-
 6 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/class.go b/class.go
index b045949..2436f4d 100644
--- a/class.go
+++ b/class.go
@@ -171,8 +171,7 @@ type _StandardClass struct {
 var standardClass = &_BuiltInClass{
 	name: NewSymbol("<standard-class>"),
 	create: func() Node {
-		classCounter++
-		return &_StandardClass{}
+		return nil
 	},
 	super: []Class{objectClass},
 }
diff --git a/functionref.go b/functionref.go
index 1100c64..3159d63 100644
--- a/functionref.go
+++ b/functionref.go
@@ -11,7 +11,7 @@ type FunctionRef struct {
 	value Callable
 }
 
-var functionRefClassObject = registerNewBuiltInClass[FunctionRef]("<function>")
+var functionRefClassObject = registerNewAbstractClass[FunctionRef]("<function>")
 
 func (f FunctionRef) ClassOf() Class {
 	return functionRefClassObject
diff --git a/hash.go b/hash.go
index d9dd7d7..4ab6f95 100644
--- a/hash.go
+++ b/hash.go
@@ -28,7 +28,7 @@ func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	return wc.Result()
 }
 
-var hashClass = registerNewBuiltInClass[_Hash]("<hashtable>")
+var hashClass = registerNewAbstractClass[_Hash]("<hashtable>")
 
 func (_Hash) ClassOf() Class {
 	return hashClass
diff --git a/macro.go b/macro.go
index a822df2..968f2bd 100644
--- a/macro.go
+++ b/macro.go
@@ -17,7 +17,7 @@ type _Macro struct {
 	lexical *World
 }
 
-var macroClass = registerNewBuiltInClass[*_Macro]("<macro>")
+var macroClass = registerNewAbstractClass[*_Macro]("<macro>")
 
 func (*_Macro) ClassOf() Class {
 	return macroClass
@@ -25,7 +25,7 @@ func (*_Macro) ClassOf() Class {
 
 type _JoinedForm []Node
 
-var joinedFormClass = registerNewBuiltInClass[_JoinedForm]("<joined-form>")
+var joinedFormClass = registerNewAbstractClass[_JoinedForm]("<joined-form>")
 
 func (_JoinedForm) ClassOf() Class {
 	return joinedFormClass
diff --git a/newtypes.go b/newtypes.go
index 89efab3..e4e8c45 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -1,6 +1,6 @@
 package gmnlisp
 
-var stringBuilderClass = registerNewBuiltInClass[*StringBuilder]("<string-builder>")
+var stringBuilderClass = registerNewAbstractClass[*StringBuilder]("<string-builder>")
 
 func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
@@ -11,7 +11,7 @@ func (t *StringBuilder) Equals(n Node, _ EqlMode) bool {
 	return ok && t == other
 }
 
-var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
+var inputStreamClass = registerNewAbstractClass[*inputStream]("<input-stream>")
 
 func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
@@ -26,7 +26,7 @@ func (t *inputStream) String() string {
 	return "(*inputStream)"
 }
 
-var outputFileStreamClass = registerNewBuiltInClass[*_OutputFileStream]("<output-file-stream>")
+var outputFileStreamClass = registerNewAbstractClass[*_OutputFileStream]("<output-file-stream>")
 
 func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
@@ -50,7 +50,7 @@ func (t *_Macro) String() string {
 	return "(*_Macro)"
 }
 
-var readerNodeClass = registerNewBuiltInClass[_ReaderNode]("<reader>")
+var readerNodeClass = registerNewAbstractClass[_ReaderNode]("<reader>")
 
 func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
@@ -65,7 +65,7 @@ func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[*_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewAbstractClass[*_WriterNode]("<_WriterNode>")
 
 func (*_WriterNode) ClassOf() Class {
 	return writerNodeClass
diff --git a/number.go b/number.go
index 20dd1f5..7b51b05 100644
--- a/number.go
+++ b/number.go
@@ -81,7 +81,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>", errorClass)
+var arithmeticErrorClass = registerNewAbstractClass[*ArithmeticError]("<arithmetic-error-class>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
-- 
2.43.0


From 765aa17662c089d1a05345c23061dfc8b231fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 075/105] fix: the most specific applicable method is called
 whatever the order of definition

---
 generic.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index b40363d..9227ef4 100644
--- a/generic.go
+++ b/generic.go
@@ -43,6 +43,28 @@ func (m *_Method) canCallWith(values []Node) bool {
 	return true
 }
 
+func strictSubClass(c1, c2 Class) bool {
+	return !c1.Equals(c2, STRICT) && c1.InheritP(c2)
+}
+
+// moreSpecificThan compares the classes of the parameters from left to right
+func (m *_Method) moreSpecificThan(other *_Method) bool {
+	for i, t := range m.types {
+		if i >= len(other.types) {
+			return true
+		}
+		if strictSubClass(t, other.types[i]) {
+			return true
+		}
+		if !t.Equals(other.types[i], STRICT) {
+			return false
+		}
+	}
+	return m.restType != nil && other.restType != nil &&
+		len(m.types) == len(other.types) &&
+		strictSubClass(m.restType, other.restType)
+}
+
 type _Generic struct {
 	Symbol
 	argc    int
@@ -115,11 +137,16 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
+	var best *_Method
 	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
+		m := c.methods[i]
+		if m.canCallWith(values) && (best == nil || m.moreSpecificThan(best)) {
+			best = m
 		}
 	}
+	if best != nil {
+		return best.method(ctx, w, values)
+	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
 		space: symFunction,
-- 
2.43.0


From 5fb92f39002b97e34127cfaf01e83ba63d560d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 076/105] fix: <built-in-class> is a subclass of <object>

---
 builtinclass.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/builtinclass.go b/builtinclass.go
index 771625e..8bdbfa2 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -33,7 +33,11 @@ func (e *_BuiltInClass) Create() Node {
 
 var classClass = registerNewBuiltInClass[Class]("<class>")
 
-var builtInClass = newAbstractClass[*_BuiltInClass]("<built-in-class>")
+var builtInClass = &_BuiltInClass{
+	name:   NewSymbol("<built-in-class>"),
+	create: func() Node { return nil },
+	super:  []Class{objectClass},
+}
 
 func (e *_BuiltInClass) ClassOf() Class {
 	return builtInClass
-- 
2.43.0


From 971eb5b29a3a89e2d657cba3fbec609f95547852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 077/105] fix: the parameters v and # of a format directive are
 used

---
 format.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format.go b/format.go
index e12df35..3eeab48 100644
--- a/format.go
+++ b/format.go
@@ -197,8 +197,17 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					return err
 				}
 				parameter = append(parameter, int(decimal))
+				argv = argv[1:]
+				if IsNone(format) {
+					return ErrInvalidFormat
+				}
+				c, format, ok = format.firstRuneAndRestString()
 			} else if c == '#' {
 				parameter = append(parameter, int(len(argv)))
+				if IsNone(format) {
+					return ErrInvalidFormat
+				}
+				c, format, ok = format.firstRuneAndRestString()
 			} else {
 				break
 			}
-- 
2.43.0


From 69656d28cd350c4b0b543366c1aca8f37742b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 078/105] fix: characters outside of ASCII in format directives
 are not taken for other ones

---
 format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format.go b/format.go
index 3eeab48..434d49a 100644
--- a/format.go
+++ b/format.go
@@ -14,7 +14,7 @@ type runeWriter interface {
 	WriteRune(r rune) (int, error)
 }
 
-func printInt(w io.Writer, value Node, base int, args ...int) error {
+func printInt(w runeWriter, value Node, base int, args ...int) error {
 	if base < 2 || base > 36 {
 		return errors.New("domain error")
 	}
@@ -43,7 +43,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			w.WriteRune(rune(padding))
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
@@ -159,7 +159,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -168,7 +168,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
-- 
2.43.0


From 5e8fd2e9799138130ed01d78c2014718cf605ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 079/105] fix: the width of ~a and ~s counts characters instead
 of bytes

---
 format.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/format.go b/format.go
index 434d49a..c2aac38 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type runeWriter interface {
@@ -124,6 +125,21 @@ func printSpaces(n int, w io.Writer) {
 	}
 }
 
+func printObject(w io.Writer, value Node, mode PrintMode, args ...int) error {
+	var buffer strings.Builder
+	if _, err := tryPrintTo(&buffer, value, mode); err != nil {
+		return err
+	}
+	body := buffer.String()
+	if _, err := io.WriteString(w, body); err != nil {
+		return err
+	}
+	if len(args) >= 1 {
+		printSpaces(args[0]-utf8.RuneCountInString(body), w)
+	}
+	return nil
+}
+
 var NewLineOnFormat = []byte{'\n'}
 
 func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) error {
@@ -274,21 +290,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		case 'g', 'G':
 			err = printFloat(w, value, 'g', parameter...)
 		case 'a', 'A':
-			n, err := tryPrintTo(w, value, PRINC)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINC, parameter...)
 		case 's', 'S':
-			n, err := tryPrintTo(w, value, PRINT)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINT, parameter...)
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
 		}
-- 
2.43.0


From 5260e94ee0d2f9915014528028b867be7fc2626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 080/105] fix: ~& of format knows the last output to the
 standard output and string streams

---
 format.go   | 9 ++++-----
 sequence.go | 5 +++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/format.go b/format.go
index c2aac38..cd0fc64 100644
--- a/format.go
+++ b/format.go
@@ -308,6 +308,9 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		rw, ok := output.(*_WriterNode)
 		if !ok {
 			rw = &_WriterNode{_Writer: output}
+			if k, ok := output.(CanKnowLastOutput); ok {
+				rw.lastOutputIsNotLf = !k.IsLastOutputLf()
+			}
 		}
 		err := f(rw, argv[1:])
 		return Null, err
@@ -318,11 +321,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
-		W, ok := w.stdout._Writer.(*_WriterNode)
-		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
-		}
-		return Null, f(W, argv[1:])
+		return Null, f(w.stdout, argv[1:])
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
diff --git a/sequence.go b/sequence.go
index 5355be5..e8355cd 100644
--- a/sequence.go
+++ b/sequence.go
@@ -77,6 +77,11 @@ func (S *StringBuilder) Sequence() Node {
 	return String(S.String())
 }
 
+func (S *StringBuilder) IsLastOutputLf() bool {
+	s := S.String()
+	return s == "" || s[len(s)-1] == '\n'
+}
+
 func (S StringBuilder) GoString() string {
 	return strconv.Quote(S.String())
 }
-- 
2.43.0


From 917ea768c86012533d2c1d961c421a4159d8edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 081/105] fix: the end of the standard input is an
 end-of-stream error when no stream is given

---
 io.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..60d357e 100644
--- a/io.go
+++ b/io.go
@@ -24,6 +24,7 @@ func chomp(s string) string {
 }
 
 type _StreamInput struct {
+	node     Node
 	reader   _Reader
 	eofFlag  bool
 	eofValue Node
@@ -46,11 +47,13 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		fallthrough
 	case 1:
 		var ok bool
+		this.node = argv[0]
 		this.reader, ok = argv[0].(_Reader)
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
 	case 0:
+		this.node = w.Stdin()
 		this.reader = w.Stdin()
 	}
 	return this, nil
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +112,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.node,
 		})
 	}
 	if err != nil {
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From 56ae68b07b60b5116dc58d67e2f00a275addd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 082/105] fix: get-output-stream-string returns what was
 written since its last call

---
 io.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 60d357e..ba29798 100644
--- a/io.go
+++ b/io.go
@@ -165,11 +165,13 @@ func funCreateStringOutputStream(ctx context.Context, w *World) (Node, error) {
 }
 
 func funGetOutputStreamString(ctx context.Context, w *World, arg Node) (Node, error) {
-	stringer, ok := arg.(fmt.Stringer) // expect StringBuilder
-	if !ok {
-		return nil, ErrNotSupportType
+	stream, err := ExpectClass[*StringBuilder](ctx, w, arg)
+	if err != nil {
+		return nil, err
 	}
-	return String(stringer.String()), nil
+	result := stream.String()
+	stream.Reset()
+	return String(result), nil
 }
 
 type inputStream struct {
-- 
2.43.0


From 15f6c55d23621d47bcd97af83d0a2ed82483b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 083/105] fix: file-length with an element size of zero is a
 domain error

---
 io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io.go b/io.go
index ba29798..aafe021 100644
--- a/io.go
+++ b/io.go
@@ -300,6 +300,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, true, &DomainError{
+			Object:        second,
+			ExpectedClass: integerClass,
+		})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From c9c6004aa39d12dd10e757caea6f4f7e1c656359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 084/105] fix: a tilde at the end of a format string is written

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index cd0fc64..c767e66 100644
--- a/format.go
+++ b/format.go
@@ -161,7 +161,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			tryPrintTo(w, c, PRINC)
 			continue
 		}
-		if IsNone(format) {
+		if format == "" {
 			w.WriteRune('~')
 			break
 		}
-- 
2.43.0


From 1e7c725d8b1d8e710bfefe51aa80e76d59ce8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 085/105] fix: convert rejects numbers which have no
 counterpart in the class

---
 convert.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index de9224d..7f0c4c5 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strconv"
+	"unicode/utf8"
 )
 
 var (
@@ -74,7 +75,9 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Float:
 		switch class {
 		case integerClass.name: // it should be error
-			return Integer(val), nil
+			if val >= -(1<<63) && val < 1<<63 { // false for NaN
+				return Integer(val), nil
+			}
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
@@ -83,7 +86,9 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
-			return Rune(val), nil
+			if val >= 0 && val <= utf8.MaxRune && utf8.ValidRune(rune(val)) {
+				return Rune(val), nil
+			}
 		case integerClass.name:
 			return val, nil
 		case floatClass.name:
-- 
2.43.0


From 0499a116417ce55956a97daf037ec1fda0499c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 086/105] fix: convert of a float to a string keeps its value

---
 convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/convert.go b/convert.go
index 7f0c4c5..4e71334 100644
--- a/convert.go
+++ b/convert.go
@@ -81,7 +81,11 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			s := val.String()
+			if f, err := strconv.ParseFloat(s, 64); err != nil || Float(f) != val {
+				s = strconv.FormatFloat(float64(val), 'g', -1, 64)
+			}
+			return String(s), nil
 		}
 	case Integer:
 		switch class {
-- 
2.43.0


From d09daf2a65667cefeb1b7982a4ae49b6d8dff711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 087/105] fix: convert accepts only decimal notations of floats

---
 convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convert.go b/convert.go
index 4e71334..99359c5 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -48,7 +49,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return Integer(int(i)), nil
 		case floatClass.name:
 			f, err := strconv.ParseFloat(val.String(), 64)
-			if err != nil {
+			if err != nil || strings.ContainsAny(val.String(), "nNxX_") { // inf, nan and notations of Go
 				return callHandler[*ParseError](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
-- 
2.43.0


From f3f939dc9f6c2b31c2a0000fb8b15bdbf058a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 088/105] fix: convert between the empty list and vectors, and
 of objects to their own class

---
 convert.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/convert.go b/convert.go
index 99359c5..59308a5 100644
--- a/convert.go
+++ b/convert.go
@@ -107,15 +107,20 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return val, nil
 		case classVector:
 			var buffer VectorBuilder
-			for IsSome(val) {
+			for {
 				buffer.Add(ctx, w, val.Car)
-				var ok bool
-				val, ok = val.Cdr.(*Cons)
+				if IsNone(val.Cdr) {
+					return buffer.Sequence(), nil
+				}
+				next, ok := val.Cdr.(*Cons)
 				if !ok {
-					break
+					return callHandler[Node](ctx, w, true, &DomainError{
+						Object:        source,
+						ExpectedClass: listClass,
+					})
 				}
+				val = next
 			}
-			return buffer.Sequence(), nil
 		}
 	case *Array:
 		if len(val.dim) != 1 {
@@ -123,7 +128,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			var cons Node = Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
@@ -131,9 +136,21 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 				}
 			}
 			return cons, nil
+		case classVector:
+			return val, nil
 		}
 	case Symbol:
 		switch class {
+		case symbolClass.name:
+			return val, nil
+		case classList:
+			if IsNone(val) {
+				return val, nil
+			}
+		case classVector:
+			if IsNone(val) {
+				return NewVector(ctx, w), nil
+			}
 		case stringClass.name:
 			return String(val.String()), nil
 		}
-- 
2.43.0


From 8148b15cd0ee17282b10d66bcdebf4b419387a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 089/105] fix: a generated symbol differs from every symbol
 interned

---
 atom.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atom.go b/atom.go
index ced97c0..070506a 100644
--- a/atom.go
+++ b/atom.go
@@ -68,14 +68,20 @@ func (idm *idMap[T]) NameToId(name string) T {
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := T(len(idm.name2id))
+	id := idm.newId(name)
 	idm.name2id[name] = id
+	return id
+}
+
+// newId makes an id which NameToId never returns.
+func (idm *idMap[T]) newId(name string) T {
+	id := T(len(idm.id2name))
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
-	return len(idm.name2id)
+	return len(idm.id2name)
 }
 
 type Symbol interface {
@@ -103,7 +109,7 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newId(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From d5c1d189a97c5aa64283fd05214956f6ec3bdbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 090/105] fix: mapping functions and macro expansions without
 end can be cancelled

---
 lambda.go | 9 +++++++++
 macro.go  | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 88aafe4..4ea07be 100644
--- a/lambda.go
+++ b/lambda.go
@@ -536,6 +536,9 @@ func raiseProgramError(ctx context.Context, w *World, e error) (Node, error) {
 type Function0 func(context.Context, *World) (Node, error)
 
 func (f Function0) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	if IsSome(list) {
 		return raiseProgramError(ctx, w, ErrTooManyArguments)
 	}
@@ -545,6 +548,9 @@ func (f Function0) Call(ctx context.Context, w *World, list Node) (Node, error)
 type Function1 func(context.Context, *World, Node) (Node, error)
 
 func (f Function1) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	v, list, err := w.ShiftAndEvalCar(ctx, list)
 	if err != nil {
 		return nil, err
@@ -558,6 +564,9 @@ func (f Function1) Call(ctx context.Context, w *World, list Node) (Node, error)
 type Function2 func(context.Context, *World, Node, Node) (Node, error)
 
 func (f Function2) Call(ctx context.Context, w *World, list Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	first, list, err := w.ShiftAndEvalCar(ctx, list)
 	if err != nil {
 		return nil, err
diff --git a/macro.go b/macro.go
index 968f2bd..07181d9 100644
--- a/macro.go
+++ b/macro.go
@@ -93,7 +93,10 @@ func expandJoinedForm(n Node) Node {
 }
 
 func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
-	var err error
+	err := checkContext(ctx)
+	if err != nil {
+		return nil, err
+	}
 
 	lexical := Variables{}
 	for _, name := range m.param {
-- 
2.43.0


From 855874430743d80118f542bd2f25596020f5aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 091/105] fix: cancellation is not taken for an error of the
 program

---
 cond.go  | 3 +++
 progn.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cond.go b/cond.go
index 3dcad74..a67067f 100644
--- a/cond.go
+++ b/cond.go
@@ -79,6 +79,9 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || w.handler.hasHandled(err) {
 		return value, err
 	}
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 
 	var errorValue interface {
 		Node
diff --git a/progn.go b/progn.go
index dbfbf1d..66545a3 100644
--- a/progn.go
+++ b/progn.go
@@ -463,7 +463,10 @@ func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 		var e3 *_ErrTagBody           // tagbody & go
 		var e4 *_ErrContinueCondition // with-handler & continue-condition
 		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || errors.As(err, &e4) ||
-			errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || checkContext(ctx) != nil {
+			errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) {
+			return nil, err
+		}
+		if err := checkContext(ctx); err != nil {
 			return nil, err
 		}
 		return Null, nil
-- 
2.43.0


From 39167b4e91ff43b71c21537823fadde71a0613df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 092/105] fix: recursion of a generic function can be cancelled

---
 generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generic.go b/generic.go
index 9227ef4..d41d24c 100644
--- a/generic.go
+++ b/generic.go
@@ -127,6 +127,9 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	values := []Node{}
 	for IsSome(node) {
 		var v Node
-- 
2.43.0


From b37207cde6c828d4309595bf5a28076ef01ef1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 093/105] fix: the startup code is evaluated in the outermost
 scope whatever the first evaluation is

---
 world.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 85073b3..b0f07b2 100644
--- a/world.go
+++ b/world.go
@@ -571,7 +571,16 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
+		root := w
+		for root.parent != nil {
+			root = root.parent
+		}
+		for _, c := range compiled {
+			// neither the scopes nor the cancellation of the first caller concern the startup code
+			if _, err := root.Eval(context.Background(), c); err != nil {
+				panic(err.Error())
+			}
+		}
 	})
 	var result Node = Null
 	var err error
-- 
2.43.0


From 6f70b65dc72b2f5866a7e01cd9869640b88bc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 094/105] fix: report text which could not be written to an
 output file

Closing an output file ignored the error of the final flush, so that a full
device lost the text silently in both close and with-open-output-file.
---
 io.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index aafe021..c91486c 100644
--- a/io.go
+++ b/io.go
@@ -228,8 +228,11 @@ type _OutputFileStream struct {
 }
 
 func (o *_OutputFileStream) Close() error {
-	o.Writer.Flush()
-	return o.closer.Close()
+	err := o.Writer.Flush()
+	if closeErr := o.closer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFileStream, error) {
@@ -248,7 +251,7 @@ func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
 	return openOutputFile(ctx, w, arg)
 }
 
-func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, error) {
+func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (result Node, err error) {
 	param, list, err := Shift(list)
 	if err != nil {
 		return nil, err
@@ -269,7 +272,12 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, erro
 	if err != nil {
 		return nil, err
 	}
-	defer stream.Close()
+	defer func() {
+		closeErr := stream.Close()
+		if err == nil && !errors.Is(closeErr, os.ErrClosed) {
+			err = closeErr
+		}
+	}()
 
 	nw := w.Let(&Pair{Key: symbol, Value: stream})
 	return Progn(ctx, nw, list)
-- 
2.43.0


From 9fa30ebf16bdbec91dee3b51c4a0381a8320cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 095/105] fix: ~& on an output file knows what was written
 before

Every call of format took the file to be at the beginning of a line.
---
 io.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c91486c..1d0f426 100644
--- a/io.go
+++ b/io.go
@@ -223,12 +223,13 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 }
 
 type _OutputFileStream struct {
-	*bufio.Writer
+	_WriterNode
+	buffer *bufio.Writer
 	closer io.Closer
 }
 
 func (o *_OutputFileStream) Close() error {
-	err := o.Writer.Flush()
+	err := o.buffer.Flush()
 	if closeErr := o.closer.Close(); err == nil {
 		err = closeErr
 	}
@@ -244,7 +245,8 @@ func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFile
 	if err != nil {
 		return nil, err
 	}
-	return &_OutputFileStream{Writer: bufio.NewWriter(writer), closer: writer}, nil
+	buffer := bufio.NewWriter(writer)
+	return &_OutputFileStream{_WriterNode: _WriterNode{_Writer: buffer}, buffer: buffer, closer: writer}, nil
 }
 
 func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
-- 
2.43.0


From 524a99570d6643d9cfe83038cdb9e94cb84cf667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 096/105] fix: a handler can leave a malformed lambda
 expression by a non-local exit

---
 lambda.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index 4ea07be..5bd6668 100644
--- a/lambda.go
+++ b/lambda.go
@@ -20,10 +20,13 @@ type _Lambda struct {
 
 func cmdLambda(ctx context.Context, w *World, node Node) (Node, error) {
 	value, err := newLambda(ctx, w, node, nulSymbol)
-	if err != nil {
+	if err == ErrTooFewArguments {
 		return raiseProgramError(ctx, w, err)
 	}
-	return FunctionRef{value: value}, err
+	if err != nil {
+		return nil, err
+	}
+	return FunctionRef{value: value}, nil
 }
 
 type _Parameters struct {
-- 
2.43.0


From 07ca3af76208202544b48341a12e2318bfca4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 097/105] fix: initforms are evaluated under the context of
 create, not of defclass

---
 class.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/class.go b/class.go
index 2436f4d..aa0439f 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	initformIn func(context.Context) (Node, error) // under the context of the caller
 	initarg    []Symbol
 }
 
@@ -146,6 +147,7 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 			}
 		case kwInitForm:
 			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initformIn = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -439,11 +441,11 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
 	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
+		if _, ok := reciever.Slot[name]; !ok && slot1.initformIn != nil {
 			var err error
-			reciever.Slot[name], err = slot1.initform()
+			reciever.Slot[name], err = slot1.initformIn(ctx)
 			if err != nil {
 				return err
 			}
@@ -451,7 +453,7 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 	}
 	for _, super := range classDef.Super {
 		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+			if err := reciever.callInitForm(ctx, uc); err != nil {
 				return err
 			}
 		}
@@ -541,7 +543,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 62d0ccf02a3a017295eddb81ce0c23cefae33e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 098/105] fix: wildcard takes one argument and returns a proper
 list

---
 pkg/wildcard/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..b5cb1b5 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	var result gmnlisp.Node = gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From 2eb0354d390868453d13412c9fa510c0484a7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 099/105] fix: command requires the name of the command

---
 pkg/command/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From de847e805d696fe29866c5ddf819fc89232e1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 100/105] fix: arrays without dimensions can be accessed,
 printed and read

---
 array.go               | 20 +++++++++++++++++++-
 pkg/parser/main.go     | 10 ++++++++++
 pkg/parser/tokenize.go |  2 +-
 world.go               |  4 ++--
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index 68a7781..333d3ed 100644
--- a/array.go
+++ b/array.go
@@ -43,6 +43,11 @@ func (*Array) ClassOf() Class {
 }
 
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
+	if len(dim) == 0 && len(list) == 1 {
+		// an array without dimensions
+		n, err := tryPrintTo(w, list[0], mode)
+		return nil, n, err
+	}
 	dem := byte('(')
 	n := 0
 	if len(dim) < 1 || dim[0] <= 0 {
@@ -206,6 +211,12 @@ func funAref(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args)-1 > len(array.dim) {
 		return nil, ErrTooManyArguments
 	}
+	if len(array.dim) == 0 {
+		return array.list[0], nil
+	}
+	if len(args) < 2 {
+		return raiseProgramError(ctx, w, ErrTooFewArguments)
+	}
 	for _, _nth := range args[1:] {
 		nth, err := ExpectClass[Integer](ctx, w, _nth)
 		if err != nil {
@@ -237,6 +248,13 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args)-2 > len(array.dim) {
 		return nil, ErrTooManyArguments
 	}
+	if len(array.dim) == 0 {
+		array.list[0] = newValue
+		return newValue, nil
+	}
+	if len(args) < 3 {
+		return raiseProgramError(ctx, w, ErrTooFewArguments)
+	}
 
 	for _, _index := range args[2:] {
 		index, err := ExpectClass[Integer](ctx, w, _index)
@@ -301,7 +319,7 @@ func funBasicArray(_ context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funGeneralArray(_ context.Context, w *World, arg Node) (Node, error) {
-	if array, ok := arg.(*Array); ok && len(array.dim) >= 2 {
+	if array, ok := arg.(*Array); ok && len(array.dim) != 1 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 0e9fb03..eab4d05 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -278,6 +278,16 @@ func (p *_Parser[N]) parseToken(token string, rs io.RuneScanner) (N, error) {
 	if token == "#(" {
 		return p.readArray(1, rs)
 	}
+	if token == "#0a" || token == "#0A" {
+		element, token, err := p.readNode(rs)
+		if err != nil {
+			return p.Null(), unexpectedEOF(err)
+		}
+		if token == ")" || token == "." {
+			return p.Null(), ErrTooFewArguments
+		}
+		return p.Array([]N{element}, []int{}), nil
+	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
 		if err != nil || dim < 1 || dim > maxArrayRank {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 84a171d..a6d1b5d 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -130,7 +130,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if buffer.String() == "#'" {
+		if word := buffer.String(); word == "#'" || word == "#0a" || word == "#0A" {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
diff --git a/world.go b/world.go
index b0f07b2..2f468af 100644
--- a/world.go
+++ b/world.go
@@ -279,7 +279,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("and"):                            SpecialF(cmdAnd),
 	NewSymbol("append"):                         &Function{F: funAppend},
 	NewSymbol("apply"):                          SpecialF(cmdApply),
-	NewSymbol("aref"):                           &Function{Min: 2, F: funAref},
+	NewSymbol("aref"):                           &Function{Min: 1, F: funAref},
 	NewSymbol("arithmetic-error-operands"):      Function1(funArithmeticErrorOperands),
 	NewSymbol("arithmetic-error-operation"):     Function1(funArithmeticErrorOperation),
 	NewSymbol("array-dimensions"):               Function1(funArrayDimensions),
@@ -415,7 +415,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("return-from"):                    SpecialF(cmdReturnFrom),
 	NewSymbol("reverse"):                        Function1(funReverse),
 	NewSymbol("round"):                          Function1(funRound),
-	NewSymbol("set-aref"):                       &Function{Min: 3, F: funSetAref},
+	NewSymbol("set-aref"):                       &Function{Min: 2, F: funSetAref},
 	NewSymbol("set-car"):                        Function2(funSetCar),
 	NewSymbol("set-cdr"):                        Function2(funSetCdr),
 	NewSymbol("set-gethash"):                    &Function{C: 3, F: funSetHash},
-- 
2.43.0


From 9cdb295554078b5e5ff3f7e4a4a710c7fee33e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 101/105] fix: Range of a World stops at all scopes when it is
 told to

---
 world.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/world.go b/world.go
index 2f468af..343ee20 100644
--- a/world.go
+++ b/world.go
@@ -641,18 +641,16 @@ func (w *World) Assert(equation string, expect Node) string {
 
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
-	for ; w != nil; w = w.parent {
+	for cont := true; cont && w != nil; w = w.parent {
 		if w.vars == nil {
 			continue
 		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
-				if !f(key, val) {
-					return false
-				}
+				cont = f(key, val)
 				marked[key] = struct{}{}
 			}
-			return true
+			return cont
 		})
 	}
 }
-- 
2.43.0


From 0664928854d44c52d01ed2c6410feb66477c12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 102/105] fix: expand-defun displays the rest parameter

---
 lambda.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 5bd6668..2a67510 100644
--- a/lambda.go
+++ b/lambda.go
@@ -686,7 +686,10 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 	if !ok {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
-	var param Node
+	var param Node = Null
+	if f.rest != nulSymbol {
+		param = List(ampRest, f.rest)
+	}
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
-- 
2.43.0


From 5d4454c30267802287d41c58fa303796a0b3bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 103/105] fix: the condition of a division by zero in mod or
 rem names that operation

---
 number.go   | 12 ++++++------
 operator.go | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/number.go b/number.go
index 7b51b05..8f336f0 100644
--- a/number.go
+++ b/number.go
@@ -113,9 +113,9 @@ func (e *ArithmeticError) Error() string {
 
 var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>", arithmeticErrorClass)
 
-func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
+func raiseDivisionByZero(ctx context.Context, w *World, operation Callable, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
-		Operation: FunctionRef{value: &Function{F: funDevide}},
+		Operation: FunctionRef{value: operation},
 		Operands:  List(m, n),
 		Class:     divisionByZeroClass,
 	})
@@ -140,7 +140,7 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 	if _n, ok := n.(Float); ok {
 		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, i, n)
+			return raiseDivisionByZero(ctx, w, &Function{F: funDevide}, i, n)
 		}
 		return Float(i) / _n, nil
 	}
@@ -149,7 +149,7 @@ func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	if _n == 0 {
-		return raiseDivisionByZero(ctx, w, i, n)
+		return raiseDivisionByZero(ctx, w, &Function{F: funDevide}, i, n)
 	}
 	return i / _n, nil
 }
@@ -226,7 +226,7 @@ func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, f, n)
+			return raiseDivisionByZero(ctx, w, &Function{F: funDevide}, f, n)
 		}
 		return f / Float(_n), nil
 	}
@@ -235,7 +235,7 @@ func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	if _n == 0 {
-		return raiseDivisionByZero(ctx, w, f, n)
+		return raiseDivisionByZero(ctx, w, &Function{F: funDevide}, f, n)
 	}
 	return f / _n, nil
 }
diff --git a/operator.go b/operator.go
index 6f99fee..62969ff 100644
--- a/operator.go
+++ b/operator.go
@@ -228,13 +228,13 @@ func toFloat(ctx context.Context, w *World, n Node) (Float, error) {
 }
 
 // divideWithRemainder calls forInt when both operands are integers and forFloat otherwise.
-func divideWithRemainder(ctx context.Context, w *World, first, second Node,
+func divideWithRemainder(ctx context.Context, w *World, operation Callable, first, second Node,
 	forInt func(Integer, Integer) Integer, forFloat func(float64, float64) float64) (Node, error) {
 
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
 			if right == 0 {
-				return raiseDivisionByZero(ctx, w, first, second)
+				return raiseDivisionByZero(ctx, w, operation, first, second)
 			}
 			return forInt(left, right), nil
 		}
@@ -248,14 +248,14 @@ func divideWithRemainder(ctx context.Context, w *World, first, second Node,
 		return nil, err
 	}
 	if right == 0 {
-		return raiseDivisionByZero(ctx, w, first, second)
+		return raiseDivisionByZero(ctx, w, operation, first, second)
 	}
 	return Float(forFloat(float64(left), float64(right))), nil
 }
 
 // funMod implements (mod X Y). The result has the same sign as Y.
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-	return divideWithRemainder(ctx, w, first, second,
+	return divideWithRemainder(ctx, w, Function2(funMod), first, second,
 		func(left, right Integer) Integer {
 			value := left % right
 			if value != 0 && (value < 0) != (right < 0) {
@@ -274,7 +274,7 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 
 // funRem implements (rem X Y). The result has the same sign as X.
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
-	return divideWithRemainder(ctx, w, first, second,
+	return divideWithRemainder(ctx, w, Function2(funRem), first, second,
 		func(left, right Integer) Integer { return left % right },
 		math.Mod)
 }
-- 
2.43.0


From 71d6ad7c51ead9377505fee49547e82f11bd95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 104/105] fix: gmnlisp runs scripts that are empty or start
 with # but not with #!

---
 cmd/gmnlisp/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index e74eb87..4a1594d 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -179,11 +179,11 @@ func mains(args []string) error {
 		defer fd.Close()
 
 		br := bufio.NewReader(fd)
-		magicByte, err := br.Peek(1)
-		if err != nil {
+		magic, err := br.Peek(2)
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%s: %w", args[0], err)
 		}
-		if magicByte[0] == '#' || magicByte[0] == '@' {
+		if strings.HasPrefix(string(magic), "#!") || strings.HasPrefix(string(magic), "@") {
 			br.ReadString('\n')
 		}
 		script, err := io.ReadAll(br)
-- 
2.43.0


From 7f680c76d37a962a2e7e2253a3559ba891000da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 105/105] fix: an array literal whose rows differ in length is
 an error

The reader only compared the number of all elements with the dimensions, so
that #2a((1 2) (3) (4 5 6)) was read as #2a((1 2) (3 4) (5 6)).
---
 pkg/parser/main.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index eab4d05..098b0c2 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -73,6 +73,21 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	dim := make([]int, lenDim)
 	countDim := 0
 	fix := make([]bool, lenDim)
+	count := make([]int, lenDim)
+	// closeList ends a list of the depth countDim; all lists of one depth must have the same length.
+	closeList := func() error {
+		if !fix[countDim] {
+			fix[countDim] = true
+			dim[countDim] = count[countDim]
+		} else if count[countDim] < dim[countDim] {
+			return ErrTooFewArguments
+		} else if count[countDim] > dim[countDim] {
+			return ErrTooManyArguments
+		}
+		count[countDim] = 0
+		countDim--
+		return nil
+	}
 	for {
 		if countDim == lenDim-1 {
 			newNode, token, err := p.readNode(rs)
@@ -80,16 +95,15 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 				return p.Null(), unexpectedEOF(err)
 			}
 			if token == ")" {
-				fix[countDim] = true
-				countDim--
+				if err := closeList(); err != nil {
+					return p.Null(), err
+				}
 				if countDim < 0 {
 					break
 				}
 			} else {
 				nodes = append(nodes, newNode)
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+				count[countDim]++
 			}
 		} else {
 			token, err := readToken(rs)
@@ -97,13 +111,12 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 				return p.Null(), unexpectedEOF(err)
 			}
 			if token == "(" {
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+				count[countDim]++
 				countDim++
 			} else if token == ")" {
-				fix[countDim] = true
-				countDim--
+				if err := closeList(); err != nil {
+					return p.Null(), err
+				}
 				if countDim < 0 {
 					break
 				}
-- 
2.43.0

