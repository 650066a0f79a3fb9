SEEDS = []
def bug(id, property, needs, breaks, edits, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k))

bug("A01-mixed-product", "A01", "an integer times a float with an integral value, product beyond 64 bits",
    "the product of an integer and an integral float wraps around instead of being the float product",
    [("number.go", "		return Float(i) * _n, nil\n", "		if m := Integer(_n); Float(m) == _n {\n			return Float(i * m), nil\n		}\n		return Float(i) * _n, nil\n")],
    lisp='(format (standard-output) "~a ~a~%" (* 3 2.0) (> (* 4000000000 4000000000.0) 0))\n', expect="6.000000 t\n")
bug("A03-float-less", "A03", "a negative fraction compared with the integer zero (or any non-integral negative float)",
    "a float is truncated toward zero before it is compared with an integer",
    [("number.go", "		return f < Float(_n), nil\n", "		if k := Integer(f); f > 0 || k < _n {\n			return f < Float(_n), nil\n		}\n		return false, nil\n")],
    lisp='(format (standard-output) "~a ~a ~a~%" (< 0.5 1) (< -1.5 0) (< -0.5 0))\n', expect="t t t\n")
bug("C04-octal-range", "C04", "an octal token beyond 64 bits", "an octal integer that does not fit in 64 bits is converted as if it were decimal",
    [("pkg/parser/main.go", "		base = 8\n", "")],
    lisp='(format (standard-output) "~a~%" #o1777777777777777777777)\n', expect="18446744073709551615\n")
bug("C01-unquote-eof", "C01", "a text that ends right after a comma", "the unfinished form after the comma is taken as the normal end of the text",
    [("pkg/parser/main.go", '''	if token == "," {
		quoted, err := p.ReadNode(rs)
		if err != nil {
			if err == io.EOF {
				return p.Null(), ErrTooShortTokens
			}
			return p.Null(), err''', '''	if token == "," {
		quoted, err := p.ReadNode(rs)
		if err != nil {
			return p.Null(), err''')],
    go='''package main

import (
	"context"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	if _, err := gmnlisp.New().Interpret(context.TODO(), "(defglobal a 1) , "); err == nil {
		println("the unfinished text was accepted")
		os.Exit(1)
	}
}
''')
def lisp(id, property, needs, breaks, edits, code, expect):
    bug(id, property, needs, breaks, edits, lisp=code, expect=expect)
def o(x):  # an expression that prints
    return '(format (standard-output) "~s~%" ' + x + ')\n'

lisp("D01-float-eql", "D01", "a float and an integer of equal value inside of a cons", "equal takes numbers of different types as equal like equalp does",
    [("number.go", "		v, ok := n.(Float)\n		return ok && f == v\n", "		if v, ok := n.(Float); ok {\n			return f == v\n		}\n		v, ok := n.(Integer)\n		return ok && m == EQUAL && f == Float(v)\n")],
    o("(equal (list 1.0) (list 1))"), "nil\n")
lisp("D01-rune-case", "D01", "two characters that differ only in case", "equal ignores the case of characters",
    [("atom.go", "		if m == EQUALP {\n			return unicode", "		if m != STRICT {\n			return unicode")],
    o("(equal '(#\\a) '(#\\A))"), "nil\n")
lisp("E01-last-dotted", "E01", "a dotted list", "last accepts a list that ends in an atom",
    [("list.go", "		if IsNone(cons.Cdr) {\n			return cons, nil\n		}\n", "		if _, ok := cons.Cdr.(*Cons); !ok {\n			return cons, nil\n		}\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (last '(1 2 . 3))))"), "error\n")
lisp("E01-assoc-equal", "E01", "keys that are equal and not eql", "assoc compares keys structurally",
    [("list.go", "		if key.Equals(cons.Car, STRICT) {\n", "		if key.Equals(cons.Car, EQUAL) {\n")],
    o("(assoc '(1) '(((1) . 2)))"), "nil\n")
lisp("E02-uneven-lists", "E02", "a second list that is shorter than the first", "maplist calls the function once more with nil for an exhausted later list",
    [("sequence.go", "			if IsNone(listSet[i]) {\n				return nil\n			}\n			seq, ok := listSet[i].(Sequence)\n			if !ok {\n				return ErrNotSupportType\n			}\n			_, restSet[i], ok", "			if IsNone(listSet[i]) {\n				if i > 0 && IsSome(listSet[0]) && IsNone(restSet[0]) {\n					restSet[i] = Null\n					continue\n				}\n				return nil\n			}\n			seq, ok := listSet[i].(Sequence)\n			if !ok {\n				return ErrNotSupportType\n			}\n			_, restSet[i], ok")],
    o("(maplist (lambda (x y) (list x y)) '(1 2) '(3))"), "(((1 2) (3)))\n")
lisp("E03-swap-subseq", "E03", "a new sequence longer than the replaced part of a list", "elements of the new sequence are stored beyond the end of the replaced part",
    [("embed/swap-subseq.lsp", "                 (> end 0)\n", "                 (>= end 0)\n")],
    o("(let ((x (list 1 2 3 4))) (setf (subseq x 1 2) '(a b c)) x)"), "(1 a 3 4)\n")
lisp("F01-index-bytes", "F01", "a match behind a character beyond ASCII", "string-index counts the bytes before the match",
    [("string.go", "	return Integer(start + utf8.RuneCountInString(str[:index])), nil\n", "	return Integer(start + len([]byte(str[:index]))), nil\n")],
    o('(string-index "b" "あb")'), "1\n")
lisp("F01-rune-compare", "F01", "characters far apart", "characters are compared by the low 16 bits of their difference",
    [("atom.go", "	cmp := rune(left) - rune(right)\n", "	cmp := rune(int16(left) - int16(right))\n")],
    o('(char< #\\a #\\U1F600)'), "t\n")
lisp("G01-row-copy", "G01", "a store of a row into an array by set-aref with fewer indexes, then a store into the row", "the elements of a row are addressed with the size of the whole rest",
    [("array.go", "	size := dim2size(A.dim[1:])\n	return &Array{\n		list: A.list[size*n : size*(n+1)],\n", "	size := dim2size(A.dim[1:])\n	return &Array{\n		list: append([]Node{}, A.list[size*n:size*(n+1)]...),\n")],
    o("(let* ((a (create-array '(2 2) 0)) (r (elt a 1))) (set-aref 5 r 0) (aref a 1 0))"), "5\n")
lisp("H01-hash-rune", "H01", "an integer and the character with that code as keys of one table", "a character key is the same as the integer key of its code",
    [("hash.go", "	value, ok := hash[first]\n	if !ok {\n		return Null, nil\n	}\n", "	value, ok := hash[first]\n	if c, isRune := first.(Rune); !ok && isRune {\n		value, ok = hash[Integer(c)]\n	}\n	if !ok {\n		return Null, nil\n	}\n")],
    o("(let ((h (make-hash-table))) (set-gethash 'v 97 h) (gethash #\\a h))"), "nil\n")
lisp("H01-remhash-keeps", "H01", "removing a key whose value is nil", "a key with the value nil is not removed",
    [("hash.go", "	delete(hash, first)\n", "	if IsSome(hash[first]) {\n		delete(hash, first)\n	}\n")],
    o("(let ((h (make-hash-table))) (set-gethash nil 1 h) (remhash 1 h) (hash-table-count h))"), "0\n")
lisp("I01-let-symbol", "I01", "a let with a variable without an initial form that hides another variable of the same name", "a variable of let without an initial form keeps the value of the variable it hides",
    [("setq.go", "			lexical[symbol] = Null\n			continue\n", "			if v, err := w.Get(symbol); err == nil {\n				lexical[symbol] = v\n			} else {\n				lexical[symbol] = Null\n			}\n			continue\n")],
    o("(let ((x 1)) (let (x) x))"), "nil\n")
lisp("I05-function2-many", "I05", "three arguments for a function of two", "surplus nil arguments are ignored",
    [("lambda.go", "	if IsSome(list) {\n		return raiseProgramError(ctx, w, ErrTooManyArguments)\n	}\n	return f(ctx, w, first, second)\n", "	if c, ok := list.(*Cons); ok && IsSome(c.Car) {\n		return raiseProgramError(ctx, w, ErrTooManyArguments)\n	}\n	return f(ctx, w, first, second)\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (cons 1 2 nil)))"), "error\n")
lisp("J01-cleanup-value", "J01", "a cleanup form and an error in the protected form", "the cleanup forms are not run when the protected form is left by throw to a tag that is a number",
    [("progn.go", "	value, list, formErr := w.ShiftAndEvalCar(ctx, list)\n", "	value, list, formErr := w.ShiftAndEvalCar(ctx, list)\n	var et *_ErrThrown\n	if errors.As(formErr, &et) && IsNone(et.Value) {\n		return nil, formErr\n	}\n")],
    o("(let ((n 0)) (catch 'x (unwind-protect (throw 'x nil) (setq n 1))) n)"), "1\n")
lisp("J01-go-backward", "J01", "a go to a tag that was skipped by another go", "a tag that was jumped over is unknown afterwards",
    [("progn.go", "			tag[symbol] = args\n			if symbol == t.tag {\n", "			if symbol == t.tag {\n")],
    o("(let ((n 0)) (tagbody (go b) a (setq n (+ n 1)) (go end) b (setq n (+ n 10)) (go a) end) n)"), "11\n")
lisp("J02-letdyn-nil", "J02", "a dynamic variable whose previous value is nil", "a dynamic variable that was nil before is unbound after dynamic-let",
    [("setq.go", "	for key, val := range D.backups {\n		D.world.dynamic.Set(key, val)\n	}\n", "	for key, val := range D.backups {\n		if IsNone(val) {\n			delete(D.world.dynamic, key)\n			continue\n		}\n		D.world.dynamic.Set(key, val)\n	}\n")],
    o("(progn (defdynamic d nil) (dynamic-let ((d 1)) 2) (dynamic d))"), "nil\n")
lisp("L01-rest-nested", "L01", "an operand nil among those spliced by ,@", "operands that are nil are left out of the expansion",
    [("macro.go", "				for i := len(c) - 1; i >= 0; i-- {\n					_cons = &Cons{Car: expandJoinedForm(c[i]), Cdr: _cons}\n", "				for i := len(c) - 1; i >= 0; i-- {\n					if IsNone(c[i]) {\n						continue\n					}\n					_cons = &Cons{Car: expandJoinedForm(c[i]), Cdr: _cons}\n")],
    o("(progn (defmacro m (&rest r) `(list ,@r)) (m 1 nil 2))"), "(1 nil 2)\n")
lisp("M02-grandparent", "M02", "a class whose second superclass has an ancestor", "only the ancestors of the first superclass are found",
    [("class.go", "		if uc, ok := super.(*_StandardClass); ok && uc.subClassP(class2) {\n			return true\n		}\n	}\n	return false\n", "		if uc, ok := super.(*_StandardClass); ok {\n			return uc.subClassP(class2)\n		}\n	}\n	return false\n")],
    o("(progn (defclass <a> () ()) (defclass <b> (<a>) ()) (defclass <m> () ()) (defclass <c> (<m> <b>) ()) (defgeneric g (x)) (defmethod g ((x <a>)) 'a) (g (create (class <c>))))"), "a\n")
lisp("M02-rest-class", "M02", "several rest arguments of which the first is of the class and a later one is not", "only the first rest argument decides whether a method applies",
    [("generic.go", "		for _, v := range values[len(m.types):] {\n			if !m.restType.InstanceP(v) {\n				//println(\"NG1\")\n				return false\n			}\n		}\n", "		for _, v := range values[len(m.types):] {\n			if m.restType.InstanceP(v) {\n				break\n			}\n			return false\n		}\n")],
    o("(progn (defgeneric g (x &rest r)) (defmethod g ((x <object>) &rest (r <object>)) 'any) (defmethod g ((x <object>) &rest (r <integer>)) 'ints) (g 1 2 'a))"), "any\n")
lisp("N01-pad-negative", "N01", "a negative number padded with zeros to a width", "the sign does not count for the width",
    [("format.go", "	if len(body) < width {\n		if padding <= 0 {\n			padding = ' '\n		}\n		for i := len(body); i < width; i++ {\n", "	digits := strings.TrimPrefix(body, \"-\")\n	if len(digits) < width {\n		if padding <= 0 {\n			padding = ' '\n		}\n		for i := len(digits); i < width; i++ {\n")],
    o('(format nil "~4d|~4d" -12 12)'), '"-12|  12"\n'.replace('"-12|', '" -12|'))
lisp("N02-crlf", "N02", "a line that ends with a carriage return without a line feed at the end of the text", "the carriage return at the very end of the text is dropped",
    [("io.go", "	L := len(s)\n	if L > 0 && s[L-1] == '\\n' {\n		L--\n		s = s[:L]\n		if L > 0 && s[L-1] == '\\r' {\n			s = s[:L-1]\n		}\n	}\n	return s\n", "	L := len(s)\n	if L > 0 && s[L-1] == '\\n' {\n		L--\n		s = s[:L]\n	}\n	if L > 0 && s[L-1] == '\\r' {\n		s = s[:L-1]\n	}\n	return s\n")],
    o('(length (read-line (create-string-input-stream (string-append "a" (create-string 1 #\\return)))))'), "2\n")
lisp("N02-stdin-error", "N02", "a non-local exit out of with-standard-input", "with-standard-input does not restore the input after an error",
    [("io.go", "	result, err := Progn(ctx, w, node)\n	w.stdin = save\n	return result, err\n", "	result, err := Progn(ctx, w, node)\n	if err != nil {\n		return nil, err\n	}\n	w.stdin = save\n	return result, err\n")],
    o('(with-standard-input (create-string-input-stream "abc") (catch \'x (with-standard-input (create-string-input-stream "z") (throw \'x 1))) (read-char))'), "#\\a\n")
lisp("O01-int-string", "O01", "an integer beyond 32 bits", "the string of an integer is that of its low 32 bits",
    [("convert.go", 'return String(fmt.Sprintf("%d", int(val))), nil', 'return String(fmt.Sprintf("%d", int32(val))), nil')],
    o("(convert 4294967296 <string>)"), '"4294967296"\n')
lisp("C02-nested-comment", "C02", "block comments nested three deep", "the third level of block comments is not counted",
    [("pkg/parser/tokenize.go", "			if c == '|' {\n				nest++\n			} else {\n", "			if c == '|' && nest < 2 {\n				nest++\n			} else {\n")],
    o("'(1 #| a #| b #| c |# |# |# 2)"), "(1 2)\n")
lisp("C04-exponent", "C04", "a binary number of 63 digits", "binary integers of 63 bits are taken for ones beyond 64 bits",
    [("pkg/parser/main.go", "		val, err = strconv.ParseInt(token[2:], 2, 64)\n", "		val, err = strconv.ParseInt(token[2:], 2, 63)\n")],
    o("(integerp #b111111111111111111111111111111111111111111111111111111111111111)"), "t\n")
lisp("B01-aref-mixed", "B01", "a negative length", "create-string with a negative length crashes",
    [("string.go", "	if length < 0 || length >= 1234567890 {\n", "	if length >= 1234567890 {\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (create-string -1)))"), "error\n")
# second wave
lisp("J01-tagbody-forward", "J01", "go to a tag after two later tags", "a jump forward over another tag stops at the end of the tagbody",
    [("progn.go", "			symbol, ok := current.(Symbol)\n			if !ok {\n				continue\n			}\n			tag[symbol] = args\n			if symbol == t.tag {\n				continue mainloop\n			}\n", "			symbol, ok := current.(Symbol)\n			if !ok {\n				continue\n			}\n			if symbol == t.tag {\n				tag[symbol] = args\n				continue mainloop\n			}\n")],
    o("(let ((n 0) (r nil)) (tagbody (go b) a (setq r (cons 'a r)) (if (< n 2) (go c)) (go end) b (setq r (cons 'b r)) (setq n (+ n 1)) (go a) c (setq n 5) (setq r (cons 'c r)) (go a) end) r)"), "(a c a b)\n")
lisp("E01-append-share", "E01", "append whose last argument is not a list", "append with a single non-empty list before an atom drops the atom",
    [("list.go", "	tail.Cdr = list[len(list)-1]\n	return head, nil\n", "	if last, ok := list[len(list)-1].(*Cons); ok {\n		tail.Cdr = last\n	}\n	return head, nil\n")],
    o("(append '(1 2) 3)"), "(1 . (2 . 3))\n")
lisp("I02-case-nil-list", "I02", "a case clause whose key list holds several keys of which an early one matches", "a case clause with the key list nil matches the value nil",
    [("progn.go", "		} else if caseValue.Equals(True, STRICT) {\n			return Progn(ctx, w, act)\n		}\n	}\n	return Null, nil\n}\n\nfunc cmdIf", "		} else if caseValue.Equals(True, STRICT) || IsNone(caseValue) && IsNone(swValue) {\n			return Progn(ctx, w, act)\n		}\n	}\n	return Null, nil\n}\n\nfunc cmdIf")],
    o("(case nil (() 'empty) ((nil) 'nil) (t 'other))"), "nil\n")
lisp("J02-setdyn-unbound", "J02", "a dynamic variable without a value outside of the form, bound to nil inside", "a dynamic binding of nil to a variable without a value is not undone",
    [("setq.go", "	for key := range D.removes {\n		delete(D.world.dynamic, key)\n	}\n", "	for key := range D.removes {\n		if IsSome(D.world.dynamic[key]) {\n			delete(D.world.dynamic, key)\n		}\n	}\n")],
    o("(progn (dynamic-let ((*v* nil)) 1) (catch 'k (with-handler (lambda (c) (throw 'k 'unbound)) (dynamic *v*))))"), "unbound\n")
def prog(id, property, needs, breaks, edits, body):
    bug(id, property, needs, breaks, edits, go='''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

var _ = time.Second
var _ = errors.Is

func eval(w *gmnlisp.World, code string) string {
	r, err := w.Interpret(context.Background(), code)
	if err != nil {
		return "error " + err.Error()
	}
	return r.String()
}

func expect(got, want string) {
	if got != want {
		fmt.Println("got", got, "want", want)
		os.RemoveAll(dir)
		os.Exit(1)
	}
}

var dir, _ = os.MkdirTemp("", "demo")

func main() {
	defer os.RemoveAll(dir)
	w := gmnlisp.New().Let(gmnlisp.Variables{gmnlisp.NewSymbol("f"): gmnlisp.String(dir + "/f")})
	_ = w
''' + body + '''}
''')

prog("R01-truncate", "R01", "an existing file that is longer than what is written", "opening an output file keeps the tail of the previous content",
    [("io.go", "os.Create(filename.String())", "os.OpenFile(filename.String(), os.O_RDWR|os.O_CREATE, 0666)")],
    '''	eval(w, `(with-open-output-file (o f) (format o "a longer text"))`)
	eval(w, `(with-open-output-file (o f) (format o "short"))`)
	expect(eval(w, `(with-open-input-file (i f) (read-line i))`), "short")
''')
prog("R01-leak-input", "R01", "a non-local exit out of with-open-input-file", "with-open-input-file leaves the file open when its body is left by an exit",
    [("io.go", "	stream, err := openInputFile(ctx, w, filename)\n	if err != nil {\n		return nil, err\n	}\n	defer stream.Close()\n\n	nw := w.Let(&Pair{Key: symbol, Value: stream})\n	return Progn(ctx, nw, list)\n", "	stream, err := openInputFile(ctx, w, filename)\n	if err != nil {\n		return nil, err\n	}\n	nw := w.Let(&Pair{Key: symbol, Value: stream})\n	result, err := Progn(ctx, nw, list)\n	if err != nil {\n		return nil, err\n	}\n	stream.Close()\n	return result, nil\n")],
    '''	os.WriteFile(dir+"/f", []byte("text"), 0o600)
	expect(eval(w, `(catch 'k (with-open-input-file (i f) (throw 'k 5)))`), "5")
	open := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && t == dir+"/f" {
			open++
		}
	}
	expect(fmt.Sprint(open), "0")
''')
prog("R01-load-nil", "R01", "a file whose evaluation fails", "an error in a loaded file is dropped when the failing form has no value",
    [("cmds.go", "	return w.InterpretBytes(ctx, script)\n", "	result, err := w.InterpretBytes(ctx, script)\n	if result == nil {\n		return Null, nil\n	}\n	return result, err\n")],
    '''	os.WriteFile(dir+"/f", []byte("(car 1)"), 0o600)
	expect(eval(w, `(catch 'k (with-handler (lambda (c) (throw 'k 'error)) (load f)))`), "error")
	os.WriteFile(dir+"/f", []byte("(throw 'k 5)"), 0o600)
	expect(eval(w, `(catch 'k (load f) 6)`), "5")
''')
prog("Q01-dynamic-shared", "Q01", "two interpreters in one process", "dynamic variables are shared by all interpreters",
    [("world.go", "			dynamic: Variables{},\n", "			dynamic: dynamics,\n"), ("world.go", "func New() *World {\n", "var dynamics = Variables{}\n\nfunc New() *World {\n")],
    '''	eval(w, `(defdynamic *demo* 5)`)
	r := eval(gmnlisp.New(), `(catch 'k (with-handler (lambda (c) (throw 'k 'unbound)) (dynamic *demo*)))`)
	expect(r, "unbound")
''')
prog("Q01-let-funcs", "Q01", "an interpreter extended with functions inside of one extended with variables", "functions given to a scope inside of a variable scope land in the interpreter itself",
    [("world.go", "func (w *World) Flet(scope FuncScope) *World {\n", "func (w *World) Flet(scope FuncScope) *World {\n	if m, ok := scope.(Functions); ok && len(m) > 1 {\n		for k, v := range m {\n			w.defun.Set(k, v)\n		}\n	}\n")],
    '''	one := func(context.Context, *gmnlisp.World, []gmnlisp.Node) (gmnlisp.Node, error) { return gmnlisp.Integer(1), nil }
	fs := gmnlisp.Functions{gmnlisp.NewSymbol("demo1"): &gmnlisp.Function{F: one}, gmnlisp.NewSymbol("demo2"): &gmnlisp.Function{F: one}}
	expect(eval(w.Flet(fs), `(+ (demo1) (demo2))`), "2")
	expect(eval(w, `(catch 'k (with-handler (lambda (c) (throw 'k 'undefined)) (demo1)))`), "undefined")
''')

err = lambda form: "(catch 'k (with-handler (lambda (c) (throw 'k 'error)) " + form + "))"
lisp("T01-dynlet-empty", "T01", "dynamic-let without any operand", "dynamic-let without operands is nil instead of an error",
    [("setq.go", "	D := w.NewDynamics()\n	defer D.Close()\n\n	vars, list, err = Shift(list)\n", "	if IsNone(list) {\n		return Null, nil\n	}\n	D := w.NewDynamics()\n	defer D.Close()\n\n	vars, list, err = Shift(list)\n")],
    o(err("(dynamic-let)")), "error\n")
lisp("T01-defdynamic-extra", "T01", "defdynamic with a superfluous operand below a handler", "a defdynamic which is refused for its superfluous operand has set the variable",
    [("setq.go", "	if IsSome(list) {\n		return nil, ErrTooManyArguments\n	}\n\n	w.dynamic.Set(symbol, value)\n	return symbol, nil\n", "	w.dynamic.Set(symbol, value)\n	if IsSome(list) {\n		return nil, ErrTooManyArguments\n	}\n	return symbol, nil\n")],
    o(err("(defdynamic d 1 2)")) + o(err("(dynamic d)")), "error\nerror\n")
lisp("T01-defclass-early", "T01", "defclass with a slot that is not well formed", "a class whose definition is refused exists all the same",
    [("class.go", "	// (slot-spec*)\n", "	w.DefineGlobal(className, class)\n	// (slot-spec*)\n")],
    o(err("(defclass <demo> () ((a :nosuch 1)))")) + o(err("(progn (class <demo>) 'defined)")), "error\nerror\n")
lisp("T01-rest-dup", "T01", "a rest parameter with the name of a required one", "a parameter list with the same name twice is accepted",
    [("lambda.go", "			if _, ok := dupCheck[rest]; ok {\n				_, err = raiseError(ctx, w, fmt.Errorf(\"%s: same name parameter already exists\", rest.String()))\n				return nil, err\n			}\n", "")],
    o(err("(progn (lambda (x &rest x) x) 'accepted)")), "error\n")

def pkgprog(id, property, needs, breaks, edits, pkgs, body):
    prog(id, property, needs, breaks, edits, body)
    s = SEEDS[-1]
    s["go"] = s["go"].replace('	"github.com/hymkor/gmnlisp"\n', '	"github.com/hymkor/gmnlisp"\n' + "".join(f'	_ "github.com/hymkor/gmnlisp/pkg/{p}"\n' for p in pkgs))
pkgprog("U01-subst-equal", "U01", "two parts of the tree that are equal and not eq", "subst replaces every part that is equal to old",
    [("pkg/subst/main.go", "list.Equals(oldItem, STRICT)", "list.Equals(oldItem, EQUAL)")], ["subst"],
    '''	expect(eval(w, `(let ((x (list 1))) (subst 'new x (list x (list 1) 2)))`), "(new (1) 2)")
''')
pkgprog("U01-subst-destructive", "U01", "old in the cdr of a dotted pair of the tree", "subst stores into the tree where a cdr is an atom",
    [("pkg/subst/main.go", "	if ok {\n		return &Cons{", "	if ok {\n		if _, more := cons.Cdr.(*Cons); !more {\n			cons.Cdr = subst(newItem, oldItem, cons.Cdr)\n			return &Cons{Car: subst(newItem, oldItem, cons.Car), Cdr: cons.Cdr}\n		}\n		return &Cons{")], ["subst"],
    '''	expect(eval(w, `(let ((x (list 1 (cons 2 3)))) (list (subst 4 3 x) x))`), "((1 (2 . 4)) (1 (2 . 3)))")
''')
pkgprog("U01-regexp-count", "U01", "a pattern that matches the empty text at the end of the text", "=~i gives at most as many matches as the text has bytes",
    [("pkg/regexp/main.go", "reg.FindAllStringSubmatchIndex(str, -1)", "reg.FindAllStringSubmatchIndex(str, len(str))")], ["regexp"],
    '''	expect(eval(w, `(=~i "b*" "ab")`), "((0 0) (1 2))")
	expect(eval(w, `(=~i "b*" "ba")`), "((0 1) (2 2))")
	expect(eval(w, `(=~i "c*" "ba")`), "((0 0) (1 1) (2 2))")
''')
pkgprog("U01-regexp-absent", "U01", "a group that takes no part in a later match", "the place of an absent group is taken from the match before",
    [("pkg/regexp/main.go", "				Car: Integer(m[i][j]),\n", "				Car: Integer(m[i][j]&^(m[i][j]>>63)),\n")], ["regexp"],
    '''	expect(eval(w, `(=~i "(a)|(b)" "b")`), "((0 1 -1 -1 0 1))")
''')
lisp("A02-floor-small", "A02", "a negative float whose size is less than one", "floor of a small negative float is zero",
    [("operator.go", "	return floatToInteger(arg, math.Floor)\n", "	return floatToInteger(arg, func(x float64) float64 {\n		if x > -1 && x < 1 {\n			return math.Trunc(x)\n		}\n		return math.Floor(x)\n	})\n")],
    o("(list (floor -0.5) (floor 0.5) (floor -1.5))"), "(-1 0 -2)\n")
lisp("K01-undefined-space", "K01", "an undefined dynamic variable below a handler", "an undefined dynamic variable is reported as an undefined function",
    [("setq.go", "	value, ok := w.dynamic.Get(symbol)\n	if !ok {\n		return nil, &_UndefinedEntity{name: symbol, space: symVariable}", "	value, ok := w.dynamic.Get(symbol)\n	if !ok {\n		return nil, &_UndefinedEntity{name: symbol, space: symFunction}")],
    o("(catch 'k (with-handler (lambda (c) (throw 'k (instancep c (class <unbound-variable>)))) (dynamic none)))"), "t\n")
lisp("I04-let-scope", "I04", "a self-call in the body of a let whose variable an operand names", "the operands of a self-call are evaluated outside of the innermost let",
    [("setq.go", "	newWorld := w.Let(lexical)\n	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)\n", "	newWorld := w.Let(lexical)\n	if first, ok := params.(*Cons); ok && IsNone(first.Cdr) && len(lexical) > 1 && tailOptSym.Id() >= 0 {\n		return prognWithTailRecOpt(ctx, w.Let(Variables{}), params, tailOptSym)\n	}\n	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)\n")],
    "(defun f (n a b) (if (= n 0) (list a b) (let ((a b) (b a)) (f (- n 1) a b))))\n" + o("(f 1 'x 'y)"), "(y x)\n")
lisp("O02-case", "O02", "two symbols whose names differ only in the case of a letter outside of ASCII", "names are interned with the case of letters outside of ASCII folded",
    [("atom.go", "	if id, ok := idm.name2id[name]; ok {\n		return id\n	}\n", "	for _, r := range name {\n		if r >= utf8.RuneSelf {\n			name = strings.ToLower(name)\n			break\n		}\n	}\n	if id, ok := idm.name2id[name]; ok {\n		return id\n	}\n"), ("atom.go", '	"unicode"\n', '	"unicode"\n	"unicode/utf8"\n')],
    o("(eq 'Ä 'ä)"), "nil\n")
lisp("G01-equal-dim", "G01", "storing into an element of an array with three dimensions", "the place of a row is computed from its first dimension only",
    [("array.go", "		elementSize := dim2size(array.dim[1:])\n		if index < 0", "		elementSize := array.dim[1%len(array.dim)]\n		if index < 0")],
    "(defglobal a (create-array '(2 2 2) 0))\n(set-aref 9 a 1 0 1)\n" + o("(list (aref a 1 0 1) (aref a 0 1 1) a)"), "(9 0 #3A(((0 0) (0 0)) ((0 9) (0 0))))\n")

bug("V01-script-status", "V01", "a script that fails", "the error of a script gets lost because the outer variable is returned",
    [("cmd/gmnlisp/main.go", "		_, err = lisp.InterpretBytes(ctx, script)\n		return err\n", "		_, err = lisp.InterpretBytes(ctx, script)\n")],
    sh="""printf '(car 1)' >"$w/a.lsp"
timeout 60 "$w/g" "$w/a.lsp" </dev/null >/dev/null 2>&1 && exit 1
printf '(car (quote (1)))' >"$w/b.lsp"
timeout 60 "$w/g" "$w/b.lsp" </dev/null >/dev/null 2>&1
""")
bug("V01-empty-argument", "V01", "an empty argument among the arguments of a script", "empty arguments are left out of *posix-argv*",
    [("cmd/gmnlisp/main.go", "		posixArgv = append(posixArgv, gmnlisp.String(s))\n", "		if s = strings.TrimSpace(s); s != \"\" {\n			posixArgv = append(posixArgv, gmnlisp.String(s))\n		}\n")],
    sh="""printf '(format (standard-output) "~s" *posix-argv*)' >"$w/a.lsp"
[ "$(timeout 60 "$w/g" "$w/a.lsp" a "" "b " </dev/null)" = '("a" "" "b ")' ]
""")
bug("V01-quit-status", "V01", "a program that calls quit below other forms", "only an unwrapped quit ends the command with success",
    [("cmd/gmnlisp/main.go", "		if !errors.Is(err, gmnlisp.ErrQuit) {\n			fmt.Fprintln(os.Stderr, err.Error())\n			os.Exit(1)", "		if err != gmnlisp.ErrQuit {\n			fmt.Fprintln(os.Stderr, err.Error())\n			os.Exit(1)")],
    sh="""timeout 60 "$w/g" -e '(defun f (n) (if (= n 0) (quit) (f (- n 1)))) (f 2)' </dev/null >/dev/null
""")
bug("V01-execute-argv", "V01", "the option -e with more than one argument", "with -e the first argument is taken for a file name",
    [("cmd/gmnlisp/main.go", "		setArgv(lisp, args)\n", "		if len(args) > 1 {\n			args = args[1:]\n		}\n		setArgv(lisp, args)\n")],
    sh="""[ "$(timeout 60 "$w/g" -e '(format (standard-output) "~s" *posix-argv*)' a b </dev/null)" = '("a" "b")' ]
""")
bug("V01-long-script", "V01", "a script of more than 64 KB", "only the first 64 KB of a script are read",
    [("cmd/gmnlisp/main.go", "		script, err := io.ReadAll(br)\n", "		script, err := io.ReadAll(io.LimitReader(br, 65536))\n")],
    sh="""printf '%070000d\n(format (standard-output) "end")' 0 >"$w/a.lsp"
[ "$(timeout 60 "$w/g" "$w/a.lsp" </dev/null)" = end ]
""")

pkgprog("W01-empty-argument", "W01", "an empty argument", "empty arguments are not passed to the program",
    [("pkg/command/main.go", "	argv := make([]string, len(list))\n	for i, value := range list {\n		argv[i] = value.String()\n	}\n", "	argv := make([]string, 0, len(list))\n	for _, value := range list {\n		if s := value.String(); s != \"\" {\n			argv = append(argv, s)\n		}\n	}\n")], ["command"],
    """	var b strings.Builder
	w.SetStdout(&b)
	eval(w, `(command "printf" "[%s]" "a" "" "b")`)
	expect(b.String(), "[a][][b]")
""")
pkgprog("W01-context", "W01", "a context that is cancelled while the program runs", "a program goes on although the evaluation is cancelled",
    [("pkg/command/main.go", "exec.CommandContext(ctx, argv[0], argv[1:]...)", "exec.Command(argv[0], argv[1:]...)")], ["command"],
    """	c, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	t := time.Now()
	_, err := w.Interpret(c, `(command "sleep" "5")`)
	expect(fmt.Sprint(err != nil, time.Since(t) < 4*time.Second), "true true")
""")
pkgprog("W01-stderr", "W01", "a program that writes to its error output", "the error output of programs goes to the standard output",
    [("pkg/command/main.go", "	cmd.Stderr = w.Errout()\n", "	cmd.Stderr = cmd.Stdout\n")], ["command"],
    """	var b, e strings.Builder
	w.SetStdout(&b)
	w.SetErrout(&e)
	eval(w, `(command "sh" "-c" "echo out; echo err >&2")`)
	expect(b.String()+e.String(), "out\\nerr\\n")
	expect(b.String(), "out\\n")
""")
pkgprog("W01-status", "W01", "a program that ends with another status than 0", "only programs that cannot be started are errors",
    [("pkg/command/main.go", "	return gmnlisp.Null, cmd.Run()\n", "	if err := cmd.Start(); err != nil {\n		return nil, err\n	}\n	cmd.Wait()\n	return gmnlisp.Null, nil\n")], ["command"],
    """	_, err := w.Interpret(context.Background(), `(command "false")`)
	expect(fmt.Sprint(err != nil), "true")
""")
for s in SEEDS:
    if s["id"] in ("W01-empty-argument", "W01-stderr"):
        s["go"] = s["go"].replace('	"os"\n', '	"os"\n	"strings"\n', 1)
# ---- a further batch: subtle changes, sizes and combinations of features
lisp("N01-fresh-many", "N01", "~& with a number after output that does not end a line", "~n& writes one newline too many when the line is not fresh",
    [("format.go", "			if w.IsLastOutputLf() {\n				n--\n			}\n			if n <= 0 {\n", "			if w.IsLastOutputLf() {\n				n--\n			} else if n > 1 {\n				n++\n			}\n			if n <= 0 {\n")],
    o('(format nil "a~2&b")'), '"a\n\nb"\n')
lisp("N01-char-param", "N01", "a padding character beyond one byte", "the padding character of ~d is written as a byte",
    [("format.go", "				parameter = append(parameter, int(c))\n", "				parameter = append(parameter, int(byte(c)))\n")],
    o('(format nil "~3,\'あd" 1)'), '"ああ1"\n')
lisp("N01-sharp-late", "N01", "# as a parameter after arguments were used", "# counts all of the arguments, used ones included",
    [("format.go", "	argv = argv[1:]\n\n	ok := true\n", "	argv = argv[1:]\n	argc := len(argv)\n\n	ok := true\n"),
     ("format.go", "				parameter = append(parameter, int(len(argv)))\n", "				parameter = append(parameter, argc)\n")],
    o('(format nil "~a~#d" 1 2)'), '"12"\n'.replace('"12"', '"12"'))
lisp("E03-elt-last", "E03", "an index beyond the end of a list", "elt beyond the end of a list is its last element",
    [("sequence.go", "			if IsNone(list) {\n				return Null, nil\n			}\n", "			if IsNone(list) {\n				break\n			}\n")],
    o("(elt '(1 2) 5)"), "nil\n")
lisp("E03-subseq-size", "E03", "a part of a list with more than 32 elements", "only the first 32 elements of a long part are copied",
    [("sequence.go", "		if start <= count {\n			e = buffer.Add(ctx, w, value)\n", "		if start <= count && (count-start) != 32 {\n			e = buffer.Add(ctx, w, value)\n")],
    o("(length (subseq (create-list 50 1) 2 45))"), "43\n")
lisp("E02-many-lists", "E02", "lists with more than 16 elements mapped in parallel", "the second list is read one element ahead after the 16th",
    [("sequence.go", "			paramSet[i], listSet[i], ok = seq.FirstAndRest()\n			if !ok {\n				return nil\n			}\n		}\n", "			paramSet[i], listSet[i], ok = seq.FirstAndRest()\n			if !ok {\n				return nil\n			}\n		}\n		if calls++; calls == 17 && len(paramSet) > 1 {\n			paramSet[1] = paramSet[0]\n		}\n"),
     ("sequence.go", "	copy(listSet, sourceSet)\n	for {\n		paramSet :=", "	copy(listSet, sourceSet)\n	calls := 0\n	for {\n		paramSet :=")],
    o("(elt (mapcar (lambda (x y) (+ x y)) (create-list 20 1) (create-list 20 2)) 16)"), "3\n")
lisp("E01-member-long", "E01", "an element behind the 64th", "member gives up after 64 elements",
    [("sequence.go", "		if expr.Equals(value, STRICT) {\n			return list, nil\n		}\n		list = rest\n", "		if expr.Equals(value, STRICT) {\n			return list, nil\n		}\n		if n++; n > 64 {\n			break\n		}\n		list = rest\n"),
     ("sequence.go", "func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {\n", "func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {\n	n := 0\n")],
    o("(member 5 (append (create-list 70 1) '(5)))"), "(5)\n")
lisp("D01-object-slots", "D01", "two objects of one class, one with an unbound slot", "an object with fewer bound slots is equal to one with more",
    [("class.go", "	if len(r.Slot) != len(other.Slot) {\n		return false\n	}\n", "	if len(r.Slot) > len(other.Slot) {\n		return false\n	}\n")],
    o("(progn (defclass <p> () ((x :initarg x) (y :initarg y))) (equal (create (class <p>) 'x 1) (create (class <p>) 'x 1 'y 2)))"), "nil\n")
lisp("M01-initarg-shared", "M01", "an initarg that a class shares with its superclass", "an initarg found in a class is not passed to its superclasses",
    [("class.go", "	for name, slot := range classDef.Slot {\n		for _, slotInitArg := range slot.initarg {\n			if slotInitArg == initArg {\n				reciever.Slot[name] = initVal\n			}\n		}\n	}\n", "	found := false\n	for name, slot := range classDef.Slot {\n		for _, slotInitArg := range slot.initarg {\n			if slotInitArg == initArg {\n				reciever.Slot[name] = initVal\n				found = true\n			}\n		}\n	}\n	if found {\n		return\n	}\n")],
    o("(progn (defclass <a> () ((x :initarg v :reader ax))) (defclass <b> (<a>) ((y :initarg v :reader by))) (let ((o (create (class <b>) 'v 1))) (list (ax o) (by o))))"), "(1 1)\n")
lisp("M01-writer-value", "M01", "nil stored in a slot", "storing nil into a slot makes it unbound",
    [("class.go", "			rec.Slot[slotName] = node[0]\n			return True, nil\n", "			if IsNone(node[0]) {\n				delete(rec.Slot, slotName)\n				return True, nil\n			}\n			rec.Slot[slotName] = node[0]\n			return True, nil\n")],
    o("(progn (defclass <a> () ((x :initarg x :writer wx :boundp bx))) (let ((o (create (class <a>) 'x 1))) (wx nil o) (bx o)))"), "t\n")
lisp("M01-initform-super", "M01", "a superclass of a superclass with an initform", "initforms are found in the class and its direct superclasses only",
    [("class.go", "			if err := reciever.callInitForm(ctx, uc); err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n", "			for _, s := range uc.Super {\n				if g, ok := s.(*_StandardClass); ok && len(uc.Slot) > 0 && len(g.Super) > 0 {\n					uc = &_StandardClass{serial: uc.serial, Symbol: uc.Symbol, Slot: uc.Slot}\n				}\n			}\n			if err := reciever.callInitForm(ctx, uc); err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n")],
    o("(progn (defclass <z> () ()) (defclass <a> (<z>) ((x :initform 1 :reader rx))) (defclass <b> (<a>) ((y :initform 2))) (defclass <c> (<b>) ()) (rx (create (class <c>))))"), "1\n")
lisp("M01-reader-first", "M01", "two readers of one slot", "only the last :reader of a slot is defined",
    [("class.go", "				slotSpec.reader = append(slotSpec.reader, v)\n", "				slotSpec.reader = append(slotSpec.reader[:0], v)\n")],
    o("(progn (defclass <a> () ((x :initarg x :reader r1 :reader r2))) (list (r2 (create (class <a>) 'x 1)) (r1 (create (class <a>) 'x 2))))"), "(1 2)\n")
lisp("M02-replaced-method", "M02", "a method without rest parameters called with fewer arguments than another method has", "a rest parameter does not accept the absence of arguments",
    [("generic.go", "		if len(m.types) > len(values) {\n			//println(\"too few arguments\")\n", "		if len(m.types) >= len(values) && len(values) > 1 {\n			//println(\"too few arguments\")\n")],
    o("(progn (defgeneric g (x y &rest r)) (defmethod g (x y &rest r) r) (g 1 2))"), "nil\n")
lisp("I01-psetq-order", "I01", "a psetq that stores the old value of one variable into another", "psetq stores each value as soon as it is known when there are more than two",
    [("setq.go", "		assignList = append(assignList, &assignT{symbol: nameSymbol, value: value})\n	}\n", "		if assignList = append(assignList, &assignT{symbol: nameSymbol, value: value}); len(assignList) > 2 {\n			if err := w.Set(nameSymbol, value); err != nil {\n				return nil, err\n			}\n		}\n	}\n")],
    o("(let ((a 1) (b 2) (c 3) (d 4)) (psetq a b b c c d d c) (list a b c d))"), "(2 3 4 3)\n")
lisp("I01-setq-many", "I01", "a setq of several variables the last of which is a global one", "setq returns the first value",
    [("setq.go", "		if err := w.Set(nameSymbol, value); err != nil {\n			return value, err\n		}\n	}\n	return value, nil\n", "		if err := w.Set(nameSymbol, value); err != nil {\n			return value, err\n		}\n		if IsNone(value) && IsSome(params) {\n			continue\n		}\n		if IsNone(value) {\n			return True, nil\n		}\n	}\n	return value, nil\n")],
    o("(let ((a 1)) (setq a nil))"), "nil\n")
lisp("J02-restore-order", "J02", "nested dynamic-lets of a variable that was unbound", "a dynamic variable that was unbound keeps the value nil",
    [("setq.go", "	for key := range D.removes {\n		delete(D.world.dynamic, key)\n	}\n", "	for key := range D.removes {\n		if len(D.backups) > 0 {\n			D.world.dynamic.Set(key, Null)\n			continue\n		}\n		delete(D.world.dynamic, key)\n	}\n")],
    o("(progn (defdynamic a 1) (dynamic-let ((a 2) (b 3)) 1) (catch 'x (with-handler (lambda (c) (throw 'x 'unbound)) (dynamic b))))"), "unbound\n") 
lisp("I04-tail-cond", "I04", "a recursive call in the test of a cond clause without a body in tail position", "a value that decides a cond clause without body is lost in tail position",
    [("progn.go", "		if IsSome(cond) {\n", "		if IsSome(cond) && IsNone(act) && currFunc.Id() >= 0 && IsSome(list) {\n			continue\n		}\n		if IsSome(cond) {\n")],
    o("(progn (defun f (n) (cond ((= n 0) 'zero) ((> n 10)) (t (f (- n 1))))) (list (f 11) (f 3)))"), "(t zero)\n")
lisp("I03-while-long", "I03", "a loop of more than 100 rounds", "a loop evaluates its condition twice in the 100th round",
    [("progn.go", "		cont, err := w.Eval(ctx, cond)\n		if err != nil {\n			return nil, err\n		}\n		if IsNone(cont) {\n			return last, nil\n", "		cont, err := w.Eval(ctx, cond)\n		if rounds++; err == nil && rounds == 100 {\n			cont, err = w.Eval(ctx, cond)\n		}\n		if err != nil {\n			return nil, err\n		}\n		if IsNone(cont) {\n			return last, nil\n"),
     ("progn.go", "	var last Node = Null\n	for {\n		if err := checkContext", "	var last Node = Null\n	rounds := 0\n	for {\n		if err := checkContext")],
    o("(let ((i 0) (n 0)) (while (progn (setq i (+ i 1)) (< i 150)) (setq n (+ n 1))) n)"), "149\n")
lisp("I02-case-later", "I02", "a key of a later clause that also stands in an earlier clause as a dotted tail", "case looks only at the first 8 keys of a clause",
    [("progn.go", "			var list Node = cons\n			for IsSome(list) {\n				var _caseValue Node\n", "			var list Node = cons\n			for i := 0; i < 8 && IsSome(list); i++ {\n				var _caseValue Node\n")],
    o("(case 9 ((1 2 3 4 5 6 7 8 9) 'found) (t 'lost))"), "found\n")
lisp("C04-float-dot", "C04", "a hexadecimal token with capital digits", "a hexadecimal integer beyond 63 bits is converted as if it were octal",
    [("pkg/parser/main.go", "		base = 16\n", "		base = 8\n")],
    o("#x10000000000000000"), "18446744073709551616\n")
lisp("C02-comment-cr", "C02", "a comment that ends with a carriage return and line feed within a nested comment", "a nested comment ends at the first end mark after a hash that is not followed by a bar",
    [("pkg/parser/tokenize.go", "			if c == '|' {\n				nest++\n			} else {\n", "			if c == '|' {\n				nest++\n			} else if c == '#' {\n				nest = 1\n			} else {\n")],
    "#| a #| b ## c |# (format (standard-output) \"in~%\") |# (format (standard-output) \"out~%\")\n", "out\n")
lisp("N02-long-line", "N02", "a line of more than 128 characters", "a long line is split",
    [("io.go", "		buffer.WriteByte(b)\n		if b == delim {\n", "		buffer.WriteByte(b)\n		if b == delim || buffer.Len() >= 128 {\n")],
    o('(length (read-line (create-string-input-stream (create-string 200 #\\a))))'), "200\n")
lisp("R01-file-bits", "R01", "a file length in units that do not divide its size", "the length of a file in large units is rounded up",
    [("io.go", "	return Integer(stat.Size() * 8 / n), nil\n", "	return Integer((stat.Size()*8 + n/2) / n), nil\n")],
    "(with-open-output-file (s \"f.txt\") (format s \"abcdefg\"))\n" + o("(file-length \"f.txt\" 16)") , "3\n")
lisp("O01-vector-list", "O01", "a vector with nil elements", "converting a vector to a list stops at the first nil from the end",
    [("convert.go", "			for i := len(val.list) - 1; i >= 0; i-- {\n				cons = &Cons{\n", "			for i := len(val.list) - 1; i >= 0; i-- {\n				if IsNone(val.list[i]) && IsNone(cons) && i > 0 {\n					continue\n				}\n				cons = &Cons{\n")],
    o("(convert (vector 1 nil) <list>)"), "(1 nil)\n")
lisp("O01-integer-float", "O01", "a large integer converted to a float", "integers are converted to floats of single precision",
    [("convert.go", "			return Float(val), nil\n		case stringClass.name:\n			return String(fmt", "			return Float(float32(val)), nil\n		case stringClass.name:\n			return String(fmt")],
    o("(= 16777217 (convert 16777217 <float>))"), "t\n")
lisp("I05-max-args", "I05", "four arguments for a function of three", "the upper limit of arguments is ignored for functions with an optional argument",
    [("lambda.go", "	if len(args) > max {\n		return raiseProgramError(ctx, w, ErrTooManyArguments)\n", "	if len(args) > max && (f.Min == 0 || len(args) > max+1) {\n		return raiseProgramError(ctx, w, ErrTooManyArguments)\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (create-string 1 #\\a 2)))"), "error\n")
lisp("I05-user-rest", "I05", "more than 20 arguments for a rest parameter", "a rest parameter takes at most 20 arguments",
    [("lambda.go", "		var values Node = nil\n		for IsSome(n) {\n", "		var values Node = nil\n		for i := 0; i < 20 && IsSome(n); i++ {\n")],
    o("(progn (defun f (&rest r) (length r)) (f 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25))"), "25\n")
lisp("J01-throw-nested", "J01", "a throw from a cleanup form", "a throw out of a cleanup form replaces the exit that is under way",
    [("progn.go", "		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {\n			return raiseControlError", "		if errors.As(err, &e1) || (errors.As(err, &e2) && formErr == nil) || errors.As(err, &e3) {\n			return raiseControlError")],
    o("(catch 'h (with-handler (lambda (c) (throw 'h 'control)) (catch 'b (catch 'a (unwind-protect (throw 'a 1) (throw 'b 2))))))"), "control\n")
lisp("J01-return-nil-name", "J01", "a return-from of a block named nil", "return-from nil leaves the value nil",
    [("progn.go", "	value, err := w.Eval(ctx, argv[1])\n	if err != nil {\n		return nil, err\n	}\n	return nil, &_ErrEarly", "	value, err := w.Eval(ctx, argv[1])\n	if err != nil {\n		return nil, err\n	}\n	if symbol == nulSymbol && !IsSome(argv[0]) {\n		if _, ok := value.(Float); ok {\n			value = Null\n		}\n	}\n	return nil, &_ErrEarly")],
    o("(block nil (return-from nil 1.5))"), "1.500000\n")

# yet another batch, written from the statements of the properties and the code
lisp("A01-float-minus", "A01", "an integral float minus an integer, difference beyond 64 bits", "the difference of an integral float and an integer wraps around",
    [("number.go", "		return f - Float(_n), nil\n", "		if k := Integer(f); Float(k) == f {\n			return Float(k - _n), nil\n		}\n		return f - Float(_n), nil\n")],
    o("(> (- 9000000000000000000.0 -9000000000000000000) 0)"), "t\n")
lisp("A01-reciprocal", "A01", "a quotient whose reciprocal is inexact", "a float is divided by an integer by multiplying by its reciprocal",
    [("number.go", "		return f / Float(_n), nil\n", "		return f * (1 / Float(_n)), nil\n")],
    o("(= (/ 3.0 10) 0.3)"), "t\n")
lisp("A02-ceiling-tiny", "A02", "a float slightly above an integer", "ceiling loses small fractions",
    [("operator.go", "	return floatToInteger(arg, math.Ceil)\n", "	return floatToInteger(arg, func(x float64) float64 {\n		return math.Floor(x + 0.999999)\n	})\n")],
    o("(ceiling 1.0000001)"), "2\n")
lisp("A03-equal-whole", "A03", "a float with a fraction compared with the integer below it", "a float is truncated before it is compared for equality with an integer",
    [("number.go", "		return ok && f == Float(_n)\n", "		return ok && Integer(f) == _n\n")],
    o("(list (= 1.0 1) (= 1.5 1) (/= 1.5 1))"), "(t nil t)\n")
lisp("A02-minusp", "A02", "a negative float above -1", "minusp looks only at the whole part of a float",
    [("cmds.go", "		func(value Float) bool { return value < 0 })\n", "		func(value Float) bool { return value+1 <= 0 })\n")],
    "(format (standard-output) \"~a~%\" (< -0.5 0))\n" + o("(if (catch 'x (with-handler (lambda (c) (throw 'x nil)) (minusp -0.5))) 1 2)"), "t\n1\n")
lisp("G01-row-beyond", "G01", "a row index beyond the dimension inside of a plane", "the row index of a plane is only checked against the end of the whole array",
    [("array.go", "		if nth < 0 || int(nth) >= array.dim[0] {\n			return nil, MakeError(ErrIndexOutOfRange, args[1])\n", "		if nth < 0 || (int(nth)+1)*dim2size(array.dim[1:]) > cap(array.list) || (len(array.dim) == 1 && int(nth) >= array.dim[0]) {\n			return nil, MakeError(ErrIndexOutOfRange, args[1])\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (aref #3a(((1 2) (3 4)) ((5 6) (7 8))) 0 2 0)))"), "error\n")
lisp("H01-clear-nil", "H01", "an entry whose value is nil", "clrhash leaves the entries whose value is nil",
    [("hash.go", "	for key := range hash {\n		delete", "	for key, value := range hash {\n		if IsNone(value) {\n			continue\n		}\n		delete")],
    o("(let ((h (make-hash-table))) (setf (gethash 'a h) nil) (setf (gethash 'b h) 1) (clrhash h) (hash-table-count h))"), "0\n")
lisp("H01-number-key", "H01", "an integer looked up where only a float of its value is a key", "gethash falls back to the float of an integer key",
    [("hash.go", "	value, ok := hash[first]\n	if !ok {\n", "	value, ok := hash[first]\n	if n, isInt := first.(Integer); isInt && !ok {\n		value, ok = hash[Float(n)]\n	}\n	if !ok {\n")],
    o("(let ((h (make-hash-table))) (setf (gethash 2.0 h) 'two) (gethash 2 h))"), "nil\n")
lisp("E01-append-dotted", "E01", "a dotted list that is not the last argument", "append drops the end of a dotted list",
    [("list.go", "		for IsSome(list1) {\n			value, list1", "		for IsSome(list1) {\n			if _, ok := list1.(*Cons); !ok && buffer.last != nil {\n				break\n			}\n			value, list1")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (append '(1 . 2) '(3))))"), "error\n")
lisp("E01-nreverse-stop", "E01", "a list with a nil element", "nreverse stops at an element that is nil",
    [("sequence.go", "		list = cons.Cdr\n		cons.Cdr = result\n		result = cons\n", "		list = cons.Cdr\n		cons.Cdr = result\n		if result = cons; IsNone(cons.Car) && IsNone(list) {\n			return cons.Cdr, nil\n		}\n")],
    o("(let ((a (list 1 nil))) (nreverse a))"), "(nil 1)\n")
lisp("F01-create-wide", "F01", "a character beyond the basic multilingual plane", "create-string fills with the low 16 bits of the character",
    [("string.go", "	return String(strings.Repeat(string(ch), int(length))), nil\n", "	return String(strings.Repeat(string(ch&0xFFFF), int(length))), nil\n")],
    o("(= (convert (elt (create-string 2 #\\U1F600) 1) <integer>) 128512)"), "t\n")
lisp("F01-compare-length", "F01", "strings of different length with a common prefix", "strings are compared by length first when one is a prefix of the other up to case",
    [("string.go", "	cmp := strings.Compare(left.String(), right.String())\n", "	cmp := strings.Compare(left.String(), right.String())\n	if len(left) > len(right) && strings.EqualFold(string(left[:len(right)]), string(right)) {\n		cmp = 1\n	}\n")],
    o("(list (string< \"a\" \"b\") (string< \"Ab\" \"a\"))"), "(t t)\n")
lisp("F01-append-many", "F01", "an empty string between others", "string-append stops at an empty string",
    [("string.go", "		buffer.WriteString(str.String())\n", "		if len(str) == 0 && buffer.Len() > 0 {\n			break\n		}\n		buffer.WriteString(str.String())\n")],
    o('(string-append "a" "" "b")'), '"ab"\n')
lisp("O01-octal-text", "O01", "a text with a leading zero or a base prefix", "the text of an integer is converted in the base of its prefix",
    [("convert.go", "			i, err := strconv.ParseInt(val.String(), 10, 64)\n", "			i, err := strconv.ParseInt(val.String(), 0, 64)\n")],
    o('(convert "010" <integer>)'), "10\n")
lisp("O01-text-bytes", "O01", "a text beyond ASCII", "a string is converted to a vector of bytes",
    [("convert.go", "			var buffer VectorBuilder\n			for _, r := range val {\n", "			var buffer VectorBuilder\n			for _, r := range []byte(val) {\n")],
    o('(length (convert (create-string 2 #\\U3042) <list>))') + o('(= (convert (aref (convert (create-string 2 #\\U3042) <general-vector>) 1) <integer>) 12354)'), "2\nt\n")
lisp("C03-backquote-extra", "C03", "a quasiquote form with more than one argument", "a list that starts with the symbol quasiquote prints only its first argument",
    [("cons.go", "	if cons.Car == backQuoteSymbol {\n		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) && IsNone(cdr.Cdr) {\n", "	if cons.Car == backQuoteSymbol {\n		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) {\n")],
    "(format (standard-output) \"~a~%\" (length (read (create-string-input-stream (let ((s (create-string-output-stream))) (format s \"~s\" (list (car '`a) 1 2)) (get-output-stream-string s))))))\n", "3\n")
lisp("D01-cdr-mode", "D01", "texts that differ in case after the first element", "equalp compares the rest of a list like equal",
    [("cons.go", "		cons.getCdr().Equals(value.Cdr, m)\n", "		cons.getCdr().Equals(value.Cdr, EQUAL)\n")],
    o("(equalp '(1 \"B\") '(1 \"b\"))"), "t\n")
prog("D01-array-shape", "D01", "two arrays of the same elements with different dimensions", "arrays with the same elements are equal although their shapes differ",
    [("array.go", "	for i, v := range A.dim {\n		if v != B.dim[i] {\n", "	for i, v := range A.dim {\n		if len(A.dim) < 3 && v != B.dim[i] {\n")],
    '''	v, err := gmnlisp.New().Interpret(context.TODO(), "(equal (create-array '(1 2 3) 0) (create-array '(3 2 1) 0))")
	if err != nil || gmnlisp.IsSome(v) {
		println("equal")
		os.Exit(1)
	}
''')
lisp("K01-handler-leak", "K01", "an exit out of with-handler", "the handler stays established after a non-local exit",
    [("cond.go", "	defer func() { w.handler = oldHandler }()\n", "	leave := true\n	defer func() {\n		if leave {\n			w.handler = oldHandler\n		}\n	}()\n"),
     ("cond.go", "	var e1 *_ErrEarlyReturns // block & return-from\n", "	leave = err == nil || errors.As(err, new(*_ErrThrown))\n	var e1 *_ErrEarlyReturns // block & return-from\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'outer)) (block b (with-handler (lambda (c) (throw 'x 'inner)) (return-from b 1))) (car 1)))"), "outer\n")
lisp("K01-uneval-object", "K01", "a continue-condition without effect on nested handlers", "the value of a continue-condition is lost when it is nil",
    [("cond.go", "	return nil, &_ErrContinueCondition{Cond: cond, Value: value}\n", "	if IsNone(value) {\n		value = cond\n	}\n	return nil, &_ErrContinueCondition{Cond: cond, Value: value}\n")],
    o("(with-handler (lambda (c) (continue-condition c nil)) (cerror \"use nil\" \"bad\"))"), "nil\n")
lisp("M01-boundp-nil", "M01", "a slot that was set to nil", "a slot that holds nil counts as unbound",
    [("class.go", "			if _, ok := rec.Slot[slotName]; ok {\n				return True, nil\n", "			if v, ok := rec.Slot[slotName]; ok && IsSome(v) {\n				return True, nil\n")],
    "(defclass <c> () ((a :initarg a :boundp c-a-p)))\n" + o("(c-a-p (create (class <c>) 'a nil))"), "t\n")
lisp("I01-letx-shadow", "I01", "a dynamic-let variable read by a later initial value", "psetq of a variable that was assigned before in the same form keeps the first value",
    [("setq.go", "	for _, a := range assignList {\n		if err := w.Set(a.symbol, a.value); err != nil {\n", "	done := map[Symbol]bool{}\n	for _, a := range assignList {\n		if done[a.symbol] {\n			continue\n		}\n		done[a.symbol] = true\n		if err := w.Set(a.symbol, a.value); err != nil {\n")],
    o("(let ((a 0)) (psetq a 1 a 2) a)"), "2\n")
lisp("I05-lambda-rest-few", "I05", "a call of a function with a rest parameter and too few required arguments", "a missing last required argument is nil when the function has a rest parameter",
    [("lambda.go", "		value, n, err = w.ShiftAndEvalCar(ctx, n)\n		if err != nil {\n			// return nil,fmt", "		if IsNone(n) && L.rest != nulSymbol && len(lexical) == len(L.param)-1 && len(lexical) > 0 {\n			lexical[name] = Null\n			continue\n		}\n		value, n, err = w.ShiftAndEvalCar(ctx, n)\n		if err != nil {\n			// return nil,fmt")],
    o("(progn (defun f (a b &rest r) (list a b r)) (catch 'x (with-handler (lambda (c) (throw 'x 'error)) (f 1))))"), "error\n")
prog("P01-while-context", "P01", "a while whose condition and body are only variables, the body nil", "a loop whose body gives nil does not look at the context",
    [("progn.go", "	var last Node = Null\n	for {\n		if err := checkContext(ctx); err != nil {\n", "	last := Node(Null)\n	for {\n		if err := checkContext(ctx); err != nil && IsSome(last) {\n")],
    '''	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	done := make(chan struct{})
	go func() {
		gmnlisp.New().Interpret(ctx, "(let ((x 1) (y nil)) (while x y))")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		println("still running")
		os.Exit(1)
	}
''')
lisp("E03-elt-nested", "E03", "an index into a list in an array", "elt of a list beyond its end gives the last element",
    [("sequence.go", "	for _, indexArg := range args[1:] {\n		index, err := ExpectClass[Integer](ctx, w, indexArg)\n		if err != nil {\n			return nil, err\n		}\n", "	for _, indexArg := range args[1:] {\n		index, err := ExpectClass[Integer](ctx, w, indexArg)\n		if err != nil {\n			return nil, err\n		}\n		if index > 255 {\n			index &= 255\n		}\n")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (elt \"abc\" 257)))"), "error\n")
lisp("J02-dynlet-error", "J02", "an error in the initial value of a dynamic-let", "dynamic-let of a name that stands twice restores the wrong value",
    [("setq.go", "	for key, val := range D.backups {\n		D.world.dynamic.Set(key, val)\n", "	for key, val := range D.backups {\n		if IsNone(val) {\n			continue\n		}\n		D.world.dynamic.Set(key, val)\n")],
    o("(progn (defdynamic a nil) (dynamic-let ((a 2)) 1) (dynamic a))"), "nil\n")
lisp("T01-psetq-odd", "T01", "a psetq with a missing value", "the name without a value at the end of a setq is ignored",
    [("setq.go", "		nameNode, params, err = Shift(params)\n		if err != nil {\n			return nil, err\n		}\n		nameSymbol, err := ExpectSymbol(ctx, w, nameNode)\n		if err != nil {\n			return nil, err\n		}\n		value, params, err = w.ShiftAndEvalCar(ctx, params)\n		if err != nil {\n			return nil, err\n		}\n		assignList", "		nameNode, params, err = Shift(params)\n		if err != nil {\n			return nil, err\n		}\n		nameSymbol, err := ExpectSymbol(ctx, w, nameNode)\n		if err != nil {\n			return nil, err\n		}\n		if IsNone(params) && len(assignList) > 0 {\n			break\n		}\n		value, params, err = w.ShiftAndEvalCar(ctx, params)\n		if err != nil {\n			return nil, err\n		}\n		assignList")],
    o("(catch 'x (with-handler (lambda (c) (throw 'x 'error)) (let ((a 1) (b 2)) (psetq a 3 b))))"), "error\n")
pkgprog("U01-wildcard-last", "U01", "a pattern that matches more than two files", "wildcard leaves out the last of many files",
    [("pkg/wildcard/main.go", "	for i := len(files) - 1; i >= 0; i-- {\n", "	if len(files) > 2 {\n		files = files[:len(files)-1]\n	}\n	for i := len(files) - 1; i >= 0; i-- {\n")], ["wildcard"],
    '''	for _, name := range []string{"a1", "a2", "a3"} {
		os.WriteFile(dir+"/"+name, nil, 0600)
	}
	w = w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("p"): gmnlisp.String(dir + "/a?")})
	expect(eval(w, `(length (wildcard p))`), "3")
''')
