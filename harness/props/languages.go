package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

// The languages of C21, with evaluators written by hand.

var languages = []*language{langCalc, langJSON, langSexp, langKV, langColor, langBool, langCSV, langChain}

// ws is random white space
func ws(r *pbt.TapeReader) string {
	return []string{"", "", " ", "", "  ", "\n", "", "\t", " "}[r.Next(9)]
}

// reader of the evaluators written by hand
type hand struct {
	s string
	i int
}

func (h *hand) skip(set string) {
	for h.i < len(h.s) && strings.IndexByte(set, h.s[h.i]) >= 0 {
		h.i++
	}
}

func (h *hand) eat(s string) bool {
	if strings.HasPrefix(h.s[h.i:], s) {
		h.i += len(s)
		return true
	}
	return false
}

func (h *hand) re(re *regexp.Regexp) (string, bool) {
	loc := re.FindStringIndex(h.s[h.i:])
	if loc == nil || loc[0] != 0 {
		return "", false
	}
	m := h.s[h.i : h.i+loc[1]]
	h.i += loc[1]
	return m, true
}

func (h *hand) end() bool { return h.i == len(h.s) }

// ---- arithmetic

func apply(op string, a, b int) int {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		if b == 0 {
			return 0
		}
		return a / b
	case "%":
		if b == 0 {
			return 0
		}
		return a % b
	}
	return -1
}

func power(a, b int) int {
	p := 1
	for i := 0; i < b%64; i++ {
		p *= a
	}
	return p
}

var digits = regexp.MustCompile(`^[0-9]+`)

func (h *hand) sum() (int, bool) {
	a, ok := h.product()
	for ok {
		at := h.i
		h.skip(" \t\n")
		op := ""
		if h.i < len(h.s) && strings.ContainsRune("+-", rune(h.s[h.i])) {
			op = h.s[h.i : h.i+1]
			h.i++
			h.skip(" \t\n")
			if b, ok := h.product(); ok {
				a = apply(op, a, b)
				continue
			}
		}
		h.i = at
		break
	}
	return a, ok
}

func (h *hand) product() (int, bool) {
	a, ok := h.pow()
	for ok {
		at := h.i
		h.skip(" \t\n")
		if h.i < len(h.s) && strings.ContainsRune("*/%", rune(h.s[h.i])) {
			op := h.s[h.i : h.i+1]
			h.i++
			h.skip(" \t\n")
			if b, ok := h.pow(); ok {
				a = apply(op, a, b)
				continue
			}
		}
		h.i = at
		break
	}
	return a, ok
}

// pow associates to the right
func (h *hand) pow() (int, bool) {
	a, ok := h.factor()
	if !ok {
		return 0, false
	}
	at := h.i
	h.skip(" \t\n")
	if h.eat("^") {
		h.skip(" \t\n")
		if b, ok := h.pow(); ok {
			if b < 0 {
				b = -b
			}
			return power(a, b), true
		}
	}
	h.i = at
	return a, true
}

func (h *hand) factor() (int, bool) {
	at := h.i
	if h.eat("-") {
		h.skip(" \t\n")
		if a, ok := h.factor(); ok {
			return -a, true
		}
	} else if h.eat("(") {
		h.skip(" \t\n")
		if a, ok := h.sum(); ok {
			h.skip(" \t\n")
			if h.eat(")") {
				return a, true
			}
		}
	} else if d, ok := h.re(digits); ok {
		n := 0
		for _, c := range d {
			n = n*10 + int(c-'0')
		}
		return n, true
	}
	h.i = at
	return 0, false
}

func evalCalc(text string) (string, bool) {
	h := &hand{s: text}
	h.skip(" \t\n")
	n, ok := h.sum()
	h.skip(" \t\n")
	if !ok || !h.end() {
		return "", false
	}
	return strconv.Itoa(n), true
}

func genCalc(r *pbt.TapeReader, depth int) string {
	if depth <= 0 || r.Done() {
		return []string{"", "", "", "0", "", "00"}[r.Next(6)] + strconv.Itoa(r.Next(252)*(1+r.Next(60)))
	}
	switch r.Next(8) {
	case 0:
		return "-" + ws(r) + genCalc(r, depth-1)
	case 1, 2:
		return "(" + ws(r) + genCalc(r, depth-1) + ws(r) + ")"
	case 3:
		return genCalc(r, depth-1)
	case 4:
		return genCalc(r, depth-1) + ws(r) + "^" + ws(r) + strconv.Itoa(r.Next(5))
	}
	op := []string{"+", "-", "*", "/", "%", "-", "+"}[r.Next(7)]
	return genCalc(r, depth-1) + ws(r) + op + ws(r) + genCalc(r, depth-1)
}

func asNum(a j.Ast) *valueNode { return a.(*valueNode) }

func cbInt(it j.Ast) j.Ast {
	if len(flat(it)) <= 15 {
		return num(j.NewNativeIntFrom(it).Int())
	}
	n := 0
	for _, c := range flat(it) {
		n = n*10 + int(c-'0')
	}
	return num(n)
}

func cbNeg(it j.Ast) j.Ast { return num(-asNum(it).n) }

func cbAnswer(it j.Ast) j.Ast { return str(strconv.Itoa(asNum(it).n)) }

func cbBinMap(it j.Ast) j.Ast {
	m := it.(*j.NativeMap)
	return num(apply(flat(m.GetOrPanic("op")), asNum(m.GetOrPanic("l")).n, asNum(m.GetOrPanic("r")).n))
}

func cbBinArr(it j.Ast) j.Ast {
	a := it.(*j.NativeArray)
	return num(apply(flat(a.Get(1)), asNum(a.Get(0)).n, asNum(a.Get(2)).n))
}

// cbFold: [first, [[op, x], ..]]
func cbFold(it j.Ast) j.Ast {
	a := it.(*j.NativeArray)
	n := asNum(a.Get(0)).n
	for _, x := range a.Get(1).(*j.NativeArray).Array() {
		p := x.(*j.NativeArray)
		n = apply(flat(p.Get(0)), n, asNum(p.Get(1)).n)
	}
	return num(n)
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func cbPow(it j.Ast) j.Ast {
	m := it.(*j.NativeMap)
	return num(power(asNum(m.GetOrPanic("base")).n, abs(asNum(m.GetOrPanic("exp")).n)))
}

func calcFactor(x *spell) []j.Line {
	return []j.Line{
		rank("Pow", x.o("", "base:Factor _ '^' _ exp:Pow", cbPow), x.o("", "Factor")),
		rank("Factor", x.o("", "'-' _ Factor", cbNeg), x.o("", "'(' _ Sum _ ')'"), x.o("Int", "/[0-9]+/", cbInt)),
		x.i("_", "[ \\t\\n]*"),
	}
}

var langCalc = &language{
	name: "arithmetic", gen: genCalc, eval: evalCalc,
	alphabet: []string{"+", "-", "*", "(", ")", " ", "1", "0", "^", "/", "%", "x", ".", "\n"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line { // left-recursive, ranks and labels
			return append([]j.Line{
				x.o("Start", "_ Sum _", cbAnswer),
				rank("Sum", x.o("", "l:Sum _ op:AddOp _ r:Product", cbBinMap), x.o("", "Product")),
				rank("Product", x.o("", "l:Product _ op:MulOp _ r:Pow", cbBinMap), x.o("", "Pow")),
				x.i("AddOp", "[+\\-]"), x.i("MulOp", "'*' | '/' | '%'"),
			}, calcFactor(x)...)
		},
		func(x *spell) []j.Line { // left-recursive, arrays and choices
			return append([]j.Line{
				x.i("AddOp", "'+' | '-'"), x.i("MulOp", "[*/%]"),
				x.i("Product", "Mul | Pow"),
				x.i("Mul", "Product _ MulOp _ Pow", cbBinArr),
				x.i("Add", "Sum _ AddOp _ Product", cbBinArr),
				x.i("Sum", "Add | Product"),
				x.o("Start", "_ Sum _", cbAnswer),
			}, calcFactor(x)...)
		},
		func(x *spell) []j.Line { // iterative
			return append([]j.Line{
				x.o("Start", "_ Sum _", cbAnswer),
				x.i("Sum", "Product (_ AddOp _ Product)*", cbFold),
				x.i("Product", "Pow (_ MulOp _ Pow)*", cbFold),
				x.i("AddOp", "[+-]"), x.i("MulOp", "[*/%]"),
			}, calcFactor(x)...)
		},
		func(x *spell) []j.Line { // all inside one another, as the joeson grammar
			return []j.Line{
				x.o("Start", "_ Sum _", cbAnswer),
				rank("Sum",
					x.o("", "Sum _ Plus _ Product", cbBinArr),
					rankO("Product",
						x.o("", "Product _ Times _ Pow", cbBinArr),
						rankO("Pow",
							x.o("", "base:Factor _ '^' _ exp:Pow", cbPow),
							rankO("Factor",
								x.o("", "'-' _ Factor", cbNeg),
								x.o("", "'(' _ Sum _ ')'"),
								x.o("", "[0-9]+", cbInt),
							),
						),
						x.i("Times", "[*/%]"),
					),
					x.i("Plus", "[+\\-]"),
				),
				x.i("_", "(' ' | '\t' | '\n')*"),
			}
		},
	},
}

// ---- JSON

func canonJSON(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case json.Number:
		return "#" + string(x)
	case string:
		return strconv.Quote(x)
	case []any:
		var parts []string
		for _, y := range x {
			parts = append(parts, canonJSON(y))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case map[string]any:
		m := map[string]string{}
		for k, y := range x {
			m[k] = canonJSON(y)
		}
		return canonObj(m)
	}
	return "?"
}

func canonObj(m map[string]string) string {
	var parts []string
	for k, v := range m {
		parts = append(parts, strconv.Quote(k)+":"+v)
	}
	sort.Strings(parts)
	return "{" + strings.Join(parts, ",") + "}"
}

func evalJSON(text string) (string, bool) {
	if strings.Contains(text, "\ufeff") || !json.Valid([]byte(text)) {
		return "", false
	}
	d := json.NewDecoder(bytes.NewReader([]byte(text)))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return "", false
	}
	return canonJSON(v), true
}

func genJSON(r *pbt.TapeReader, depth int) string {
	w := func() string { return ws(r) }
	switch k := r.Next(9); {
	case k == 0 && depth > 0, k == 1 && depth > 0, k == 8 && depth > 1:
		var parts []string
		for n := r.Next(4); n > 0; n-- {
			parts = append(parts, w()+genJSONStr(r)+w()+":"+w()+genJSON(r, depth-1)+w())
		}
		return "{" + w() + strings.Join(parts, ",") + "}"
	case k < 4 && depth > 0:
		var parts []string
		for n := r.Next(5); n > 0; n-- {
			parts = append(parts, w()+genJSON(r, depth-1)+w())
		}
		return "[" + w() + strings.Join(parts, ",") + "]"
	case k == 4:
		return []string{"true", "false", "null"}[r.Next(3)]
	case k == 5:
		return genJSONStr(r)
	}
	return []string{"0", "-0", "12", "-7.25", "1e5", "3E-2", "0.5e+10", "100", "-1"}[r.Next(9)]
}

func genJSONStr(r *pbt.TapeReader) string {
	var b strings.Builder
	b.WriteString("\"")
	for n := r.Next(5); n > 0; n-- {
		b.WriteString([]string{"a", "b", "é", "世", "\\n", "\\\"", "\\\\", "\\u00e9", "\\/", " ", "'", "{", "\\u0041", "a", "k"}[r.Next(15)])
	}
	b.WriteString("\"")
	return b.String()
}

func cbJSONStr(it j.Ast) j.Ast {
	var s string
	if e := json.Unmarshal([]byte("\""+flat(it)+"\""), &s); e != nil {
		return nil
	}
	return str(strconv.Quote(s))
}

func cbJSONNum(it j.Ast) j.Ast { return str("#" + flat(it)) }
func cbJSONLit(it j.Ast) j.Ast { return str(flat(it)) }

func cbJSONArr(it j.Ast) j.Ast {
	var parts []string
	for _, v := range values(it) {
		parts = append(parts, v.s)
	}
	return str("[" + strings.Join(parts, ",") + "]")
}

// cbJSONObj takes pairs of key and value
func cbJSONObj(it j.Ast) j.Ast {
	m := map[string]string{}
	vs := values(it)
	for i := 0; i+1 < len(vs); i += 2 {
		k, _ := strconv.Unquote(vs[i].s)
		m[k] = vs[i+1].s
	}
	return str(canonObj(m))
}

func cbSame(it j.Ast) j.Ast { return it }

var langJSON = &language{
	name: "JSON", gen: func(r *pbt.TapeReader, d int) string { return ws(r) + genJSON(r, d) + ws(r) }, eval: evalJSON,
	alphabet: []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "1", "0", "-", ".", "e", "true", "nul", " ", "\t", "\n", "é", "\\u12", "\x01", "\u2028"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("Doc", "_ Value _"),
				rank("Value",
					x.o("Object", "'{' _ Pair*(_ ',' _) _ '}'", cbJSONObj),
					x.o("Array", "'[' _ Value*(_ ',' _) _ ']'", cbJSONArr),
					x.o("String", "'\"' Char* '\"'", cbJSONStr),
					x.o("Number", "[-]? ([0] | [1-9] [0-9]*) ([.] [0-9]+)? ([eE] [+\\-]? [0-9]+)?", cbJSONNum),
					x.o("Literal", "'true' | 'false' | 'null'", cbJSONLit),
				),
				x.i("Pair", "k:String _ ':' _ v:Value"),
				x.i("Char", "[^\"\\\\\\x00-\\x1f] | Escape"),
				x.i("Escape", "/\\\\[\"\\\\\\/bfnrt]/ | /\\\\u[0-9a-fA-F]{4}/"),
				x.i("_", "[ \\t\\n\\r]*"),
			}
		},
		func(x *spell) []j.Line {
			return []j.Line{
				x.i("_", "(' ' | '\t' | '\n' | '\r')*"),
				x.i("Sep", "_ ',' _"),
				x.i("Number", "/-?(0|[1-9][0-9]*)(\\.[0-9]+)?([eE][+-]?[0-9]+)?/", cbJSONNum),
				x.i("String", "/\"([^\"\\\\\\x00-\\x1f]|\\\\[\"\\\\\\/bfnrt]|\\\\u[0-9a-fA-F]{4})*\"/", func(it j.Ast) j.Ast {
					s := flat(it)
					return cbJSONStr(j.NewNativeString(s[1 : len(s)-1]))
				}),
				x.i("Object", "Empty | '{' _ Pairs _ '}'", func(it j.Ast) j.Ast {
					if len(values(it)) == 0 {
						return str("{}")
					}
					return cbJSONObj(it)
				}),
				x.i("Empty", "'{' _ '}'"),
				x.i("Pairs", "Pair+Sep"),
				x.i("Pair", "String _ ':' _ Value"),
				x.i("Array", "'[' _ (Value (Sep Value)*)? _ ']'", cbJSONArr),
				x.o("Doc", "_ Value _"),
				x.i("Value", "(?'{') Object | (?'[') Array | (?'\"') String | !['tfn] Number | Word"),
				x.i("Word", "('true' | 'false' | 'null')", cbJSONLit),
			}
		},
	},
}

// ---- S-expressions

var symbol = regexp.MustCompile(`^[a-z+*<?-][a-z0-9+*<?-]*`)
var integer = regexp.MustCompile(`^-?[0-9]+`)

// an S-expression is valued at its canonical form, or, when it is an operation, at
// its result
func (h *hand) sexp() (string, bool) {
	at := h.i
	switch {
	case h.eat("'"):
		if s, ok := h.sexp(); ok {
			return "(quote " + s + ")", true
		}
	case h.eat("("):
		var parts []string
		for {
			h.skip(" \n")
			if h.eat(")") {
				return sexpValue(parts), true
			}
			s, ok := h.sexp()
			if !ok {
				break
			}
			parts = append(parts, s)
		}
	default:
		if s, ok := h.re(integer); ok {
			n := 0
			fmt.Sscanf(s, "%d", &n)
			return strconv.Itoa(n), true
		}
		if s, ok := h.re(symbol); ok {
			return s, true
		}
	}
	h.i = at
	return "", false
}

func sexpValue(parts []string) string {
	if len(parts) > 1 && (parts[0] == "+" || parts[0] == "*" || parts[0] == "max") {
		acc := 0
		for i, p := range parts[1:] {
			n, e := strconv.Atoi(p)
			if e != nil {
				return "(" + strings.Join(parts, " ") + ")"
			}
			switch {
			case i == 0:
				acc = n
			case parts[0] == "+":
				acc += n
			case parts[0] == "*":
				acc *= n
			default:
				acc = max(acc, n)
			}
		}
		return strconv.Itoa(acc)
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func evalSexp(text string) (string, bool) {
	h := &hand{s: text}
	var all []string
	for {
		h.skip(" \n")
		if h.end() {
			break
		}
		s, ok := h.sexp()
		if !ok {
			return "", false
		}
		all = append(all, s)
	}
	if len(all) == 0 {
		return "", false
	}
	return strings.Join(all, " "), true
}

func genSexp(r *pbt.TapeReader, depth int) string {
	if depth <= 0 || r.Done() || r.Next(4) == 0 {
		return []string{"1", "a", "-5", "+", "42", "foo", "x-y", "max", "*", "0"}[r.Next(10)]
	}
	if r.Next(8) == 0 {
		return "'" + genSexp(r, depth-1)
	}
	parts := []string{[]string{"+", "*", "max", "list", "+"}[r.Next(5)]}
	for n := r.Next(4); n > 0; n-- {
		parts = append(parts, genSexp(r, depth-1))
	}
	sep := []string{" ", "  ", "\n", " \n "}[r.Next(4)]
	return "(" + []string{"", " "}[r.Next(2)] + strings.Join(parts, sep) + []string{"", " "}[r.Next(2)] + ")"
}

func cbList(it j.Ast) j.Ast {
	var parts []string
	for _, v := range values(it) {
		parts = append(parts, v.s)
	}
	return str(sexpValue(parts))
}

func cbAll(it j.Ast) j.Ast {
	var parts []string
	for _, v := range values(it) {
		parts = append(parts, v.s)
	}
	return str(strings.Join(parts, " "))
}

func cbAtom(it j.Ast) j.Ast { return str(flat(it)) }
func cbQuote(it j.Ast) j.Ast {
	return str("(quote " + flat(it) + ")")
}

func cbAtomInt(it j.Ast) j.Ast {
	n := 0
	fmt.Sscanf(flat(it), "%d", &n)
	return str(strconv.Itoa(n))
}

var langSexp = &language{
	name: "S-expressions",
	gen: func(r *pbt.TapeReader, d int) string {
		s := ""
		for n := 1 + r.Next(3); n > 0; n-- {
			s += genSexp(r, d) + []string{" ", "\n", "  "}[r.Next(3)]
		}
		return s
	},
	eval:     evalSexp,
	alphabet: []string{"(", ")", "'", " ", "1", "a", "-", "+", "\n", "A", "max", "\t"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("All", "_ (Sexp _)+", cbAll),
				rank("Sexp",
					x.o("Quoted", "'\\'' Sexp", cbQuote),
					x.o("List", "'(' _ (Sexp _)* ')'", cbList),
					x.o("Int", "[-]? [0-9]+", cbAtomInt),
					x.o("Symbol", "[a-z+*<?\\-] [a-z0-9+*<?\\-]*", cbAtom),
				),
				x.i("_", "[ \\n]*"),
			}
		},
		func(x *spell) []j.Line { // left-recursive lists
			return []j.Line{
				rank("Items", x.o("", "Items _ Sexp"), x.o("", "_ Sexp")),
				x.i("Sexp", "Quoted | Empty | List | Int | Symbol"),
				x.i("Quoted", "'\\'' Sexp", cbQuote),
				x.i("Empty", "'(' _ ')'", func(it j.Ast) j.Ast { return str("()") }),
				x.i("List", "'(' Items _ ')'", cbList),
				x.o("All", "Items _", cbAll),
				x.i("Int", "/-?[0-9]+/", cbAtomInt),
				x.i("Symbol", "/[a-z+*<?-][a-z0-9+*<?-]*/", cbAtom),
				x.i("_", "(' ' | '\n')*"),
			}
		},
	},
}

// ---- key-value files

var kvLine = regexp.MustCompile(`^[ \t]*([a-z][a-z0-9]*)[ \t]*=[ \t]*(.*)$`)
var kvInt = regexp.MustCompile(`^[0-9]{1,6}[ \t]*$`)
var kvStr = regexp.MustCompile(`^"([^"\n]*)"[ \t]*$`)
var kvList = regexp.MustCompile(`^\[([a-z]+(?:, *[a-z]+)*)?\][ \t]*$`)

func evalKV(text string) (string, bool) {
	m := map[string]string{}
	for _, line := range strings.Split(text, "\n") {
		trimmed := strings.Trim(line, " \t")
		if trimmed == "" || trimmed[0] == '#' {
			continue
		}
		f := kvLine.FindStringSubmatch(line)
		if f == nil {
			return "", false
		}
		switch {
		case kvInt.MatchString(f[2]):
			n, _ := strconv.Atoi(strings.Trim(f[2], " \t"))
			m[f[1]] = strconv.Itoa(n)
		case kvStr.MatchString(f[2]):
			m[f[1]] = strconv.Quote(kvStr.FindStringSubmatch(f[2])[1])
		case kvList.MatchString(f[2]):
			m[f[1]] = "[" + strings.ReplaceAll(kvList.FindStringSubmatch(f[2])[1], " ", "") + "]"
		default:
			return "", false
		}
	}
	return canonObj(m), true
}

func genKV(r *pbt.TapeReader, depth int) string {
	var lines []string
	sp := func() string { return []string{"", " ", "", "\t", "  "}[r.Next(5)] }
	for n := 1 + r.Next(2+depth); n > 0; n-- {
		if r.Next(5) == 0 {
			lines = append(lines, sp()+[]string{"", "# x = 1", "#", "# é \""}[r.Next(4)])
			continue
		}
		k := []string{"a", "b", "key", "k2", "a"}[r.Next(5)]
		v := []string{"1", "042", "999999", "\"\"", "\"é # x\"", "[]", "[a]", "[a, b,c]", "\"a = 1\"", "[aa,  bb]"}[r.Next(10)]
		lines = append(lines, sp()+k+sp()+"="+sp()+v+sp())
	}
	return strings.Join(lines, "\n")
}

func cbPairs(it j.Ast) j.Ast {
	m := map[string]string{}
	for _, v := range values(it) {
		for k, x := range v.m {
			m[k] = x
		}
	}
	return str(canonObj(m))
}

func cbPair(it j.Ast) j.Ast {
	h := it.(*j.NativeMap)
	return &valueNode{Attr: j.NewAttr(), m: map[string]string{flat(h.GetOrPanic("key")): flat(h.GetOrPanic("value"))}}
}

var langKV = &language{
	name: "key-value", gen: genKV, eval: evalKV,
	alphabet: []string{"=", "\n", "#", "\"", "[", "]", ",", "a", "1", " ", "\t", "é", "0000000", "\r"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("File", "Line*'\n'", cbPairs),
				rank("Line",
					x.o("Pair", "_ key:Key _ '=' _ value:Value _ (?End)", cbPair),
					x.o("", "_ Comment?"),
				),
				x.i("Key", "[a-z] [a-z0-9]*", cbAtom),
				rank("Value",
					x.o("", "[0-9]{1,6} ![0-9]", cbAtomInt),
					x.o("", "'\"' [^\"\\n]* '\"'", func(it j.Ast) j.Ast { return str(strconv.Quote(flat(it))) }),
					x.o("", "'[' Word*Comma ']'", func(it j.Ast) j.Ast {
						var parts []string
						for _, v := range values(it) {
							parts = append(parts, v.s)
						}
						return str("[" + strings.Join(parts, ",") + "]")
					}),
				),
				x.i("Word", "[a-z]+", cbAtom),
				x.i("Comma", "',' ' '*"),
				x.i("Comment", "'#' [^\\n]*"),
				x.i("End", "'\n' | !/[\\s\\S]/"),
				x.i("_", "[ \\t]*"),
			}
		},
		func(x *spell) []j.Line {
			return []j.Line{
				x.i("Key", "/[a-z][a-z0-9]*/", cbAtom),
				x.i("Int", "/[0-9]+/", func(it j.Ast) j.Ast {
					if len(flat(it)) > 6 {
						return nil // refused
					}
					return cbAtomInt(it)
				}),
				x.i("Str", "/\"[^\"\\n]*\"/", func(it j.Ast) j.Ast {
					s := flat(it)
					return str(strconv.Quote(s[1 : len(s)-1]))
				}),
				x.i("List", "'[' (Word (',' ' '* Word)*)? ']'", func(it j.Ast) j.Ast {
					var parts []string
					for _, v := range values(it) {
						parts = append(parts, v.s)
					}
					return str("[" + strings.Join(parts, ",") + "]")
				}),
				x.i("Word", "/[a-z]+/", cbAtom),
				x.i("Pair", "key:Key _ '=' _ value:(Int | Str | List) _", cbPair),
				x.i("Line", "_ (Pair | Remark)?"),
				x.i("Remark", "'#' (!'\n' /[\\s\\S]/)*"),
				x.i("_", "(' ' | '\t')*"),
				x.o("File", "Line ('\n' Line)*", cbPairs),
			}
		},
	},
}

// ---- colours

var colorNames = map[string][3]int{"red": {255, 0, 0}, "green": {0, 128, 0}, "blue": {0, 0, 255}, "b": {1, 2, 3}}

var hex6 = regexp.MustCompile(`^#[0-9a-fA-F]{6}$`)
var hex3 = regexp.MustCompile(`^#[0-9a-fA-F]{3}$`)
var rgb = regexp.MustCompile(`^rgb\( *([0-9]{1,3}) *, *([0-9]{1,3}) *, *([0-9]{1,3}) *\)`)
var colorName = regexp.MustCompile(`^[a-z]+`)
var hexes = regexp.MustCompile(`^#[0-9a-fA-F]+`)

func hexColor(s string) string {
	if len(s) == 3 {
		s = s[0:1] + s[0:1] + s[1:2] + s[1:2] + s[2:3] + s[2:3]
	}
	n, _ := strconv.ParseInt(s, 16, 32)
	return fmt.Sprint(n>>16, ",", n>>8&255, ",", n&255)
}

func evalColor(text string) (string, bool) {
	h := &hand{s: text}
	var out []string
	for {
		if s, ok := h.re(hexes); ok {
			if !hex3.MatchString(s) && !hex6.MatchString(s) {
				return "", false
			}
			out = append(out, hexColor(s[1:]))
		} else if s, ok := h.re(rgb); ok {
			f := rgb.FindStringSubmatch(s)
			for _, d := range f[1:] {
				if n, _ := strconv.Atoi(d); n > 255 {
					return "", false
				}
			}
			a, _ := strconv.Atoi(f[1])
			b, _ := strconv.Atoi(f[2])
			c, _ := strconv.Atoi(f[3])
			out = append(out, fmt.Sprint(a, ",", b, ",", c))
		} else if s, ok := h.re(colorName); ok {
			c, known := colorNames[s]
			if !known {
				return "", false
			}
			out = append(out, fmt.Sprint(c[0], ",", c[1], ",", c[2]))
		} else {
			return "", false
		}
		if h.end() {
			return strings.Join(out, " "), true
		}
		if !h.eat(" ") {
			return "", false
		}
		h.skip(" ")
	}
}

func genColor(r *pbt.TapeReader, depth int) string {
	var parts []string
	for n := 1 + r.Next(1+depth); n > 0; n-- {
		parts = append(parts, []string{"red", "#fff", "#00Ff7a", "rgb(1,2,3)", "rgb( 255 , 0,  10 )", "green", "b", "blue", "#123", "rgb(0,00,000)"}[r.Next(10)])
	}
	return strings.Join(parts, []string{" ", "  ", " "}[r.Next(3)])
}

func cbHex(it j.Ast) j.Ast { return str(hexColor(flat(it))) }

func cbByte(it j.Ast) j.Ast {
	n, _ := strconv.Atoi(flat(it))
	if n > 255 {
		return nil
	}
	return num(n)
}

func cbRGB(it j.Ast) j.Ast {
	v := values(it)
	return str(fmt.Sprint(v[0].n, ",", v[1].n, ",", v[2].n))
}

func cbName(it j.Ast) j.Ast {
	c, known := colorNames[flat(it)]
	if !known {
		return nil
	}
	return str(fmt.Sprint(c[0], ",", c[1], ",", c[2]))
}

var langColor = &language{
	name: "colours", gen: genColor, eval: evalColor,
	alphabet: []string{"#", "f", "0", "red", " ", "(", ")", ",", "256", "rgb", "e", "9", "d"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("Colors", "Color*__", func(it j.Ast) j.Ast {
					if len(values(it)) == 0 {
						return nil
					}
					return cbAll(it)
				}),
				rank("Color",
					x.o("", "'#' Hex{6,6} !Hex", cbHex),
					x.o("", "'#' Hex{3,3} !Hex", cbHex),
					x.o("", "'rgb(' _ r:Byte _ ',' _ g:Byte _ ',' _ b:Byte _ ')'", cbRGB),
					x.o("", "[a-z]+", cbName),
				),
				x.i("Hex", "[0-9a-fA-F]"),
				x.i("Byte", "[0-9]{1,3}", cbByte),
				x.i("_", "' '*"), x.i("__", "' '+"),
			}
		},
		func(x *spell) []j.Line {
			return []j.Line{
				x.i("_", "[ ]*"), x.i("__", "' ' _"),
				x.i("Byte", "/[0-9]{1,3}/", cbByte),
				x.i("Named", "Name ![a-z]", cbName),
				x.i("Name", "'red' | 'green' | 'blue' | 'b'"),
				x.i("Rgb", "'rgb' '(' _ Byte*(_ ',' _){3,3} _ ')'", cbRGB),
				x.i("Hash", "'#' (/[0-9a-fA-F]{6}/ | /[0-9a-fA-F]{3}/) ![0-9a-fA-F]", cbHex),
				x.i("Color", "Hash | Named | Rgb"),
				x.o("Colors", "Color (__ Color)*", cbAll),
			}
		},
	},
}

// ---- boolean expressions

var word = regexp.MustCompile(`^[a-z]+`)

func (h *hand) keyword(k string) bool {
	at := h.i
	if w, ok := h.re(word); ok && w == k {
		return true
	}
	h.i = at
	return false
}

func (h *hand) binary(k string, next func() (bool, bool)) (bool, bool) {
	a, ok := next()
	if !ok {
		return false, false
	}
	for {
		at := h.i
		h.skip(" \n")
		if h.keyword(k) {
			h.skip(" \n")
			if b, ok := next(); ok {
				if k == "or" {
					a = a || b
				} else {
					a = a && b
				}
				continue
			}
		}
		h.i = at
		return a, true
	}
}

func (h *hand) or() (bool, bool)  { return h.binary("or", h.and) }
func (h *hand) and() (bool, bool) { return h.binary("and", h.boolean) }

func (h *hand) boolean() (bool, bool) {
	at := h.i
	if h.keyword("not") {
		h.skip(" \n")
		if a, ok := h.boolean(); ok {
			return !a, true
		}
	} else if h.eat("(") {
		h.skip(" \n")
		if a, ok := h.or(); ok {
			h.skip(" \n")
			if h.eat(")") {
				return a, true
			}
		}
	} else if w, ok := h.re(word); ok && w != "and" && w != "or" && w != "not" {
		return variable(w), true
	}
	h.i = at
	return false, false
}

// variable is the value of a name
func variable(w string) bool { return w == "true" || w != "false" && len(w)%2 == 1 }

func evalBool(text string) (string, bool) {
	h := &hand{s: text}
	h.skip(" \n")
	v, ok := h.or()
	h.skip(" \n")
	if !ok || !h.end() {
		return "", false
	}
	return strconv.FormatBool(v), true
}

func genBool(r *pbt.TapeReader, depth int) string {
	sp := func() string { return []string{" ", " ", "\n", "  "}[r.Next(4)] }
	if depth <= 0 || r.Done() {
		return []string{"a", "bb", "true", "false", "nota", "orb", "android", "x", "no", "ort"}[r.Next(10)]
	}
	switch r.Next(7) {
	case 0:
		return "not" + sp() + genBool(r, depth-1)
	case 1, 2:
		return "(" + sp()[1:] + genBool(r, depth-1) + ")"
	case 3, 4:
		return genBool(r, depth-1) + sp() + "and" + sp() + genBool(r, depth-1)
	}
	return genBool(r, depth-1) + sp() + "or" + sp() + genBool(r, depth-1)
}

func boolNode(b bool) *valueNode {
	if b {
		return num(1)
	}
	return num(0)
}

func cbOr(it j.Ast) j.Ast {
	n := 0
	for _, v := range values(it) {
		n |= v.n
	}
	return num(n)
}

func cbAnd(it j.Ast) j.Ast {
	n := 1
	for _, v := range values(it) {
		n &= v.n
	}
	return num(n)
}

func cbNot(it j.Ast) j.Ast      { return num(1 - values(it)[0].n) }
func cbVariable(it j.Ast) j.Ast { return boolNode(variable(flat(it))) }
func cbTruth(it j.Ast) j.Ast    { return str(strconv.FormatBool(values(it)[0].n == 1)) }

var langBool = &language{
	name: "booleans", gen: genBool, eval: evalBool,
	alphabet: []string{"and", "or", "not", " ", "(", ")", "a", "\n", "A", "no"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("Start", "_ Or _", cbTruth),
				rank("Or", x.o("", "Or _ _or _ And", cbOr), x.o("", "And")),
				rank("And", x.o("", "And _ _and _ Not", cbAnd), x.o("", "Not")),
				rank("Not", x.o("", "_not _ Not", cbNot), x.o("", "'(' _ Or _ ')'"), x.o("", "Var")),
				x.i("Var", "!_keyword Word", cbVariable),
				x.i("Word", "[a-z]+"),
				x.i("_keyword", "_or | _and | _not"),
				x.i("_or", "'or' ![a-z]"), x.i("_and", "'and' ![a-z]"), x.i("_not", "'not' ![a-z]"),
				x.i("_", "[ \\n]*"),
			}
		},
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("Start", "_ Or _", cbTruth),
				x.i("Or", "And*(_ 'or' !Letter _){1,}", cbOr),
				x.i("And", "Not+(_ 'and' !Letter _)", cbAnd),
				x.i("Not", "Negation | '(' _ Or _ ')' | Var"),
				x.i("Negation", "'not' !Letter _ Not", cbNot),
				x.i("Letter", "[a-z]"),
				x.i("Var", "/[a-z]+/", func(it j.Ast) j.Ast {
					switch flat(it) {
					case "and", "or", "not":
						return nil
					}
					return cbVariable(it)
				}),
				x.i("_", "(' ' | '\n')*"),
			}
		},
	},
}

// ---- CSV

func evalCSV(text string) (string, bool) {
	var rows []string
	h := &hand{s: text}
	for {
		var row []string
		for {
			var b strings.Builder
			if h.eat("\"") {
				for {
					if h.eat("\"\"") {
						b.WriteString("\"")
					} else if h.eat("\"") {
						break
					} else if h.end() {
						return "", false
					} else {
						b.WriteByte(h.s[h.i])
						h.i++
					}
				}
			} else {
				for !h.end() && !strings.ContainsRune(",\n\"", rune(h.s[h.i])) {
					b.WriteByte(h.s[h.i])
					h.i++
				}
			}
			row = append(row, strconv.Quote(b.String()))
			if !h.eat(",") {
				break
			}
		}
		rows = append(rows, strings.Join(row, ","))
		if h.end() {
			return strings.Join(rows, ";"), true
		}
		if !h.eat("\n") {
			return "", false
		}
	}
}

func genCSV(r *pbt.TapeReader, depth int) string {
	var rows []string
	for n := 1 + r.Next(depth+1); n > 0; n-- {
		var row []string
		for k := 1 + r.Next(4); k > 0; k-- {
			row = append(row, []string{"", "a", "1.5", "\"\"", "\"x,\ny\"", "\"say \"\"hi\"\"\"", "é 世", " ", "\"\"\"\"", "ab"}[r.Next(10)])
		}
		rows = append(rows, strings.Join(row, ","))
	}
	return strings.Join(rows, "\n")
}

func cbField(it j.Ast) j.Ast { return str(strconv.Quote(flat(it))) }

func cbJoined(sep string) func(j.Ast) j.Ast {
	return func(it j.Ast) j.Ast {
		var parts []string
		for _, v := range values(it) {
			parts = append(parts, v.s)
		}
		return str(strings.Join(parts, sep))
	}
}

var langCSV = &language{
	name: "CSV", gen: genCSV, eval: evalCSV,
	alphabet: []string{",", "\n", "\"", "a", "\"\"", "é", "\r", "\\"},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line {
			return []j.Line{
				x.o("File", "Row*'\n'", cbJoined(";")),
				x.i("Row", "Field*','", cbJoined(",")),
				rank("Field", x.o("", "'\"' (Double | [^\"])* '\"'", cbField), x.o("", "[^,\\n\"]*", cbField)),
				x.i("Double", "'\"\"'", func(it j.Ast) j.Ast { return j.NewNativeString("\"") }),
			}
		},
		func(x *spell) []j.Line {
			return []j.Line{
				x.i("Quoted", "/\"([^\"]|\"\")*\"/", func(it j.Ast) j.Ast {
					s := flat(it)
					return str(strconv.Quote(strings.ReplaceAll(s[1:len(s)-1], "\"\"", "\"")))
				}),
				x.i("Bare", "/[^,\\n\"]*/", cbField),
				x.i("Row", "(Quoted | Bare) (',' (Quoted | Bare))*", cbJoined(",")),
				x.o("File", "Row ('\n' Row)*", cbJoined(";")),
			}
		},
	},
}

// ---- member chains: a.b[c](d, e)

func (h *hand) chain() (string, bool) {
	at := h.i
	base, ok := h.re(word)
	if !ok {
		if !h.eat("(") {
			return "", false
		}
		if base, ok = h.chain(); !ok || !h.eat(")") {
			h.i = at
			return "", false
		}
	}
	for {
		at := h.i
		switch {
		case h.eat("."):
			if w, ok := h.re(word); ok {
				base = "dot(" + base + "," + w + ")"
				continue
			}
		case h.eat("["):
			if x, ok := h.chain(); ok && h.eat("]") {
				base = "at(" + base + "," + x + ")"
				continue
			}
		case h.eat("("):
			args := []string{base}
			ok := true
			if !h.eat(")") {
				for {
					x, is := h.chain()
					if !is {
						ok = false
						break
					}
					args = append(args, x)
					if h.eat(")") {
						break
					}
					if !h.eat(",") {
						ok = false
						break
					}
				}
			}
			if ok {
				base = "call(" + strings.Join(args, ",") + ")"
				continue
			}
		}
		h.i = at
		return base, true
	}
}

func evalChain(text string) (string, bool) {
	h := &hand{s: text}
	v, ok := h.chain()
	if !ok || !h.end() {
		return "", false
	}
	return v, true
}

func genMembers(r *pbt.TapeReader, depth int) string {
	s := []string{"a", "bc", "x"}[r.Next(3)]
	if depth > 0 && r.Next(6) == 0 {
		s = "(" + genMembers(r, depth-1) + ")"
	}
	for n := r.Next(5); n > 0; n-- {
		switch k := r.Next(4); {
		case k == 0 && depth > 0:
			s += "[" + genMembers(r, depth-1) + "]"
		case k == 1 && depth > 0:
			var args []string
			for m := r.Next(3); m > 0; m-- {
				args = append(args, genMembers(r, depth-1))
			}
			s += "(" + strings.Join(args, ",") + ")"
		default:
			s += "." + []string{"m", "name"}[r.Next(2)]
		}
	}
	return s
}

func cbWrap(name string) func(j.Ast) j.Ast {
	return func(it j.Ast) j.Ast {
		var parts []string
		for _, v := range values(it) {
			parts = append(parts, v.s)
		}
		return str(name + "(" + strings.Join(parts, ",") + ")")
	}
}

var langChain = &language{
	name: "chains", gen: genMembers, eval: evalChain,
	alphabet: []string{".", "[", "]", "(", ")", ",", "a", "1", " "},
	variants: []func(x *spell) []j.Line{
		func(x *spell) []j.Line { // direct left recursion
			return []j.Line{
				x.o("Start", "Chain"),
				rank("Chain",
					x.o("", "Chain '.' Word", cbWrap("dot")),
					x.o("", "Chain '[' Chain ']'", cbWrap("at")),
					x.o("", "Chain '(' Chain*',' ')'", cbWrap("call")),
					x.o("", "'(' Chain ')'"),
					x.o("", "Word"),
				),
				x.i("Word", "[a-z]+", cbAtom),
			}
		},
		func(x *spell) []j.Line { // indirect left recursion
			return []j.Line{
				x.i("Word", "/[a-z]+/", cbAtom),
				x.i("Dot", "Chain '.' Word", cbWrap("dot")),
				x.i("At", "Chain '[' Chain ']'", cbWrap("at")),
				x.i("Call", "Chain '(' (Chain (',' Chain)*)? ')'", cbWrap("call")),
				x.i("Chain", "Dot | At | Call | Group | Word"),
				x.i("Group", "'(' Chain ')'"),
				x.o("Start", "Chain"),
			}
		},
		func(x *spell) []j.Line { // iterative
			return []j.Line{
				x.o("Chain", "(Word | '(' Chain ')') (Dot | At | Call)*", func(it j.Ast) j.Ast {
					vs := values(it)
					s := vs[0].s
					for _, v := range vs[1:] {
						s = v.m["op"] + "(" + s + v.s + ")"
					}
					return str(s)
				}),
				x.i("Dot", "'.' Word", cbSuffix("dot")),
				x.i("At", "'[' Chain ']'", cbSuffix("at")),
				x.i("Call", "'(' Chain*',' ')'", cbSuffix("call")),
				x.i("Word", "[a-z]+", cbAtom),
			}
		},
	},
}

func cbSuffix(op string) func(j.Ast) j.Ast {
	return func(it j.Ast) j.Ast {
		s := ""
		for _, v := range values(it) {
			s += "," + v.s
		}
		return &valueNode{Attr: j.NewAttr(), s: s, m: map[string]string{"op": op}}
	}
}
