package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c17 = &pbt.Prop{
	ID: "C17",
	Rule: "A case is a sequence of operations on 2 native maps, 2 native arrays and values made of them, each result compared with model containers; or a value converted to another native type and back. " +
		"Non-trivial: at least 2 keys or elements were stored, one of which replaced or nested (or a conversion which is possible).",
	Assumptions: []string{
		"arrays holding maps are not concatenated, as this is not documented",
	},
	Families: []pbt.Family{
		pbt.Fam("maps", 180000, 1440000, genNative("m", 16), checkNative),
		pbt.Fam("arrays", 150000, 1200000, genNative("a", 14), checkNative),
		pbt.Fam("both", 120000, 960000, genNative("ma", 24), checkNative),
		pbt.Fam("convert", 450000, 3600000, genConvert, checkConvert),
	},
}

// NVal describes a native value: kind s, i, u, a, m, n (a node), M0.. (a map),
// A0.. (an array, which is nested in what it is put in).
type NVal struct {
	K string   `json:"k"`
	S pbt.Text `json:"s,omitempty"`
	I int      `json:"i,omitempty"`
	A []NVal   `json:"a,omitempty"`
	P []string `json:"p,omitempty"` // keys
}

var nKeys = []string{"a", "b", "c", "key", "", "0", "é", "z", "A", "a b"}
var nStrings = []string{"", "a", "12", "-7", "0", "007", "1x", " 1", "é世", "99999999999999999999", "-0", "+5", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1 ", "0x10", "1_0", "٣", "\n", "[", ",", "12_", "_1", "++5", "+-5", "--1", "1.", "1.0", "1e3", "5+", "5-", "0b1", "0o7", "1,", "+", "-", "１", "\t1", "1\n", "00", "1\x00", "0x", "1l"}

func genNVal(t *rapidT, depth int) NVal {
	k := pbt.Pick(t, "kind", []string{"s", "s", "s", "i", "i", "u", "a", "a", "m", "n"})
	if depth <= 0 && (k == "a" || k == "m") {
		k = "s"
	}
	v := NVal{K: k}
	switch k {
	case "s":
		v.S = pbt.Text(pbt.Pick(t, "str", nStrings))
		if pbt.Chance(t, "number", 30) {
			v.S = pbt.Text(strconv.Itoa(pbt.Int(t, "n", -1000, 100000)))
		}
	case "i":
		v.I = pbt.Int(t, "int", -1<<62, 1<<62)
	case "a", "m":
		n := pbt.Uniform(t, "len", 4)
		keys := map[string]bool{}
		for i := 0; i < n; i++ {
			if k == "m" {
				key := pbt.Pick(t, "key", nKeys)
				if keys[key] {
					continue
				}
				keys[key] = true
				v.P = append(v.P, key)
			}
			v.A = append(v.A, genNVal(t, depth-1))
		}
	}
	return v
}

func (v NVal) ast() j.Ast {
	switch v.K {
	case "s":
		return j.NewNativeString(string(v.S))
	case "i":
		return j.NewNativeInt(v.I)
	case "u":
		return j.NewNativeUndefined()
	case "a":
		a := []j.Ast{}
		for _, x := range v.A {
			a = append(a, x.ast())
		}
		return j.NewNativeArray(a)
	case "m":
		m := j.NewEmptyNativeMap()
		for i, k := range v.P {
			m.Set(k, v.A[i].ast())
		}
		return m
	}
	return newNode("n", nil)
}

func (v NVal) model() *model.Val {
	switch v.K {
	case "s":
		return model.Sv(string(v.S))
	case "i":
		return model.Iv(v.I)
	case "u":
		return model.Undef
	case "a", "m":
		r := &model.Val{K: v.K[0] - 'a' + 'A', Keys: v.P}
		for _, x := range v.A {
			r.A = append(r.A, x.model())
		}
		return r
	}
	return &model.Val{K: 'N', Rule: "n", A: []*model.Val{nil}}
}

// concat is the model of Concat(); ok is false where it is not documented, or
// must panic for a map.
func concat(v *model.Val, inMap bool) (string, bool) {
	switch v.K {
	case 'S', 'I':
		return v.S, true
	case 'U':
		return "", true
	case 'N':
		return "<n>", !inMap
	case 'M':
		if !inMap {
			return "", false
		}
		fallthrough
	case 'A':
		s := ""
		for _, x := range v.A {
			c, ok := concat(x, v.K == 'M')
			if !ok {
				return "", false
			}
			s += c
		}
		return s, true
	}
	return "", false
}

func hasMapInArray(v *model.Val, inArray bool) bool {
	if v.K == 'M' && inArray {
		return true
	}
	for _, x := range v.A {
		if x != nil && hasMapInArray(x, inArray || v.K == 'A') {
			return true
		}
	}
	return false
}

func show(v *model.Val) string {
	switch v.K {
	case 'S', 'I':
		return v.S
	case 'U':
		return "<NativeUndefined>"
	case 'N':
		return "<n>"
	}
	var p []string
	for i, x := range v.A {
		if v.K == 'M' {
			p = append(p, v.Keys[i]+":"+show(x))
		} else {
			p = append(p, show(x))
		}
	}
	if v.K == 'M' {
		return "NativeMap{" + strings.Join(p, ", ") + "}"
	}
	return "[" + strings.Join(p, ",") + "]"
}

// toInt is the model of the conversion to an integer.
func toInt(v *model.Val) (int, bool) {
	switch v.K {
	case 'I', 'S':
		n, e := strconv.Atoi(v.S)
		return n, e == nil
	case 'A':
		s, ok := concat(v, false)
		if !ok {
			return 0, false
		}
		n, e := strconv.Atoi(s)
		return n, e == nil
	}
	return 0, false
}

func toStr(v *model.Val) (string, bool) {
	switch v.K {
	case 'S', 'I':
		return v.S, true
	case 'A':
		return concat(v, false)
	}
	return "", false
}

// NOp is an operation on container C (0 or 1).
type NOp struct {
	K    string   `json:"k"`
	C    int      `json:"c,omitempty"`
	Key  string   `json:"key,omitempty"`
	Keys []string `json:"keys,omitempty"`
	V    *NVal    `json:"v,omitempty"`
	N    int      `json:"n,omitempty"`
}

type NativeCase struct {
	Init [2]NVal `json:"init"` // of the maps
	Arr  [2]NVal `json:"arr"`
	Ops  []NOp   `json:"ops"`
}

func genNative(kinds string, max int) func(*rapidT) NativeCase {
	var ops []string
	if strings.Contains(kinds, "m") {
		ops = append(ops, "set", "set", "set", "set", "fill", "get", "getstr", "getint", "which", "mconcat", "keys")
	}
	if strings.Contains(kinds, "a") {
		ops = append(ops, "append", "append", "append", "at", "aconcat", "array")
	}
	if len(kinds) > 1 {
		ops = append(ops, "nest", "nestmap")
	}
	return func(t *rapidT) NativeCase {
		c := NativeCase{}
		for i := range c.Init {
			c.Init[i], c.Arr[i] = NVal{K: "m"}, NVal{K: "a"}
			if pbt.Chance(t, "init", 30) {
				c.Init[i] = genNVal(t, 2)
				for c.Init[i].K != "m" {
					c.Init[i] = NVal{K: "m", P: []string{"b", "a"}, A: []NVal{c.Init[i], {K: "i", I: 3}}}
				}
			}
			if pbt.Chance(t, "arr", 30) {
				c.Arr[i].A = []NVal{genNVal(t, 1), genNVal(t, 1)}
			}
		}
		for n := 1 + pbt.Uniform(t, "ops", max); n > 0; n-- {
			op := NOp{K: pbt.Pick(t, "op", ops), C: pbt.Uniform(t, "c", 2)}
			switch op.K {
			case "set", "append":
				v := genNVal(t, 2)
				op.V, op.Key = &v, pbt.Pick(t, "key", nKeys)
			case "which":
				for k := pbt.Uniform(t, "n", 4); k > 0; k-- {
					op.Keys = append(op.Keys, pbt.Pick(t, "key", nKeys))
				}
			default:
				op.Key, op.N = pbt.Pick(t, "key", nKeys), pbt.Uniform(t, "n", 50)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

type mapModel struct {
	keys []string
	vals map[string]*model.Val
}

func (m *mapModel) set(k string, v *model.Val) {
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *mapModel) val() *model.Val {
	r := &model.Val{K: 'M', Keys: append([]string{}, m.keys...)}
	for _, k := range m.keys {
		r.A = append(r.A, m.vals[k])
	}
	return r
}

func canonOf(a j.Ast) string {
	if a == nil {
		return "nil"
	}
	return FromAst(a).Canon(false)
}

func checkNative(c NativeCase, r *pbt.R) error {
	var maps [2]*j.NativeMap
	var mm [2]*mapModel
	var arrs [2]*j.NativeArray
	var am [2]*model.Val
	replaced, nested := false, false
	r.Exec()
	for i := range maps {
		mm[i] = &mapModel{vals: map[string]*model.Val{}}
		h := map[string]j.Ast{}
		sorted := append([]string{}, c.Init[i].P...)
		sort.Strings(sorted)
		iv := c.Init[i].model()
		for _, k := range sorted { // documented as arbitrary but predictable; sorted
			mm[i].set(k, iv.Get(k))
		}
		for n, k := range c.Init[i].P {
			h[k] = c.Init[i].A[n].ast()
		}
		if len(h) == 0 && i == 0 {
			maps[i] = j.NewEmptyNativeMap()
		} else {
			maps[i] = j.NewNativeMap(h)
		}
		arrs[i] = c.Arr[i].ast().(*j.NativeArray)
		if len(c.Arr[i].A) == 0 && i == 0 {
			arrs[i] = j.NewEmptyNativeArray()
		}
		am[i] = c.Arr[i].model()
	}
	check := func(op NOp) error {
		m, mo := maps[op.C], mm[op.C]
		a, ao := arrs[op.C], am[op.C]
		v, has := mo.vals[op.Key]
		switch op.K {
		case "set":
			replaced = replaced || has && len(mo.keys) > 1
			m.Set(op.Key, op.V.ast())
			mo.set(op.Key, op.V.model())
		case "fill":
			// many keys, some of which exist already
			for i := 0; i < op.N*op.N/12; i++ {
				k := fmt.Sprintf("k%d", (i*7+len(op.Key))%(1+op.N*op.N/10))
				m.Set(k, j.NewNativeInt(i))
				mo.set(k, model.Iv(i))
			}
			for i := 0; i <= op.N*op.N/10; i++ {
				k := fmt.Sprintf("k%d", i)
				v, has := mo.vals[k]
				want := "nil"
				if has {
					want = v.Canon(false)
				}
				if x, ok := m.GetExists(k); ok != has || canonOf(x) != want {
					return errf("GetExists %s: %s, %v instead of %s, %v", k, canonOf(x), ok, want, has)
				}
			}
			r.ClassIf(len(mo.keys) > 100, "more than 100 keys")
		case "get":
			want := "nil"
			if has {
				want = v.Canon(false)
			}
			if got := canonOf(m.Get(op.Key)); got != want {
				return errf("Get: %s instead of %s", got, want)
			}
			x, ok := m.GetExists(op.Key)
			if ok != has || canonOf(x) != want {
				return errf("GetExists: %s, %v instead of %s, %v", canonOf(x), ok, want, has)
			}
			if m.Exists(op.Key) != has {
				return errf("Exists: %v", !has)
			}
			if und := !has || v.K == 'U'; m.IsUndefined(op.Key) != und {
				return errf("IsUndefined: %v", !und)
			}
			var y j.Ast
			if p := pbt.Catch(func() { y = m.GetOrPanic(op.Key) }); (p == nil) != has || canonOf(y) != want {
				return errf("GetOrPanic: %s, panic %v; instead of %s", canonOf(y), p, want)
			}
		case "getstr":
			var s string
			var ok bool
			p := pbt.Catch(func() { s, ok = m.GetStringExists(op.Key) })
			want, can := "", true
			if has {
				if v.K == 'A' && hasMapInArray(v, false) {
					break
				}
				want, can = toStr(v)
				can = can && v.K != 'I'
			}
			if can != (p == nil) || can && (s != want || ok != has) {
				return errf("GetStringExists: %q, %v, panic %v; instead of %q, %v, %v", s, ok, p, want, has, can)
			}
		case "getint":
			var n int
			var ok bool
			p := pbt.Catch(func() { n, ok = m.GetIntExists(op.Key) })
			want, can := 0, true
			if has {
				if v.K == 'A' && hasMapInArray(v, false) {
					break
				}
				want, can = toInt(v)
			}
			if can != (p == nil) || can && (n != want || ok != has) {
				return errf("GetIntExists: %d, %v, panic %v; instead of %d, %v, %v", n, ok, p, want, has, can)
			}
		case "which":
			var x j.Ast
			p := pbt.Catch(func() { x = m.GetWhicheverOrPanic(op.Keys) })
			want := "nil"
			for _, k := range op.Keys {
				if v, ok := mo.vals[k]; ok {
					want = v.Canon(false)
					break
				}
			}
			if canonOf(x) != want || (p == nil) != (want != "nil") {
				return errf("GetWhicheverOrPanic: %s, panic %v; instead of %s", canonOf(x), p, want)
			}
		case "mconcat":
			mv := mo.val()
			if hasMapInArray(mv, false) {
				break
			}
			want, can := concat(mv, true)
			var s j.NativeString
			if p := pbt.Catch(func() { s = m.Concat() }); (p == nil) != can || string(s) != want {
				return errf("Concat: %q, panic %v; instead of %q", string(s), p, want)
			}
		case "keys":
			if got := strings.Join(m.Keys(), "|"); got != strings.Join(mo.keys, "|") || len(m.Keys()) != len(mo.keys) {
				return errf("Keys: %q instead of %q", m.Keys(), mo.keys)
			}
			if m.IsEmpty() != (len(mo.keys) == 0) {
				return errf("IsEmpty: %v with keys %q", m.IsEmpty(), mo.keys)
			}
			if got, want := m.String(), show(mo.val()); got != want {
				return errf("String: %q instead of %q", got, want)
			}
		case "append":
			a.Append(op.V.ast())
			ao.A = append(ao.A, op.V.model())
			nested = nested || op.V.K == "a"
		case "nest": // an array in a map
			cp := &model.Val{K: 'A', A: append([]*model.Val{}, ao.A...)}
			m.Set(op.Key, j.NewNativeArray(append([]j.Ast{}, a.Array()...)))
			mo.set(op.Key, cp)
			nested = true
		case "nestmap": // the value of a key in an array
			if has {
				a.Append(m.Get(op.Key))
				ao.A = append(ao.A, v)
			}
		case "at":
			if a.Length() != len(ao.A) {
				return errf("Length: %d instead of %d", a.Length(), len(ao.A))
			}
			if len(ao.A) > 0 {
				k := op.N % len(ao.A)
				if got, want := canonOf(a.Get(k)), ao.A[k].Canon(false); got != want {
					return errf("Get(%d): %s instead of %s", k, got, want)
				}
			}
		case "aconcat":
			if hasMapInArray(ao, false) {
				break
			}
			if want, _ := concat(ao, false); string(a.Concat()) != want {
				return errf("Concat: %q instead of %q", string(a.Concat()), want)
			}
		case "array":
			if len(a.Array()) != len(ao.A) {
				return errf("Array: %d elements instead of %d", len(a.Array()), len(ao.A))
			}
			for i, x := range a.Array() {
				if canonOf(x) != ao.A[i].Canon(false) {
					return errf("Array: element %d is %s instead of %s", i, canonOf(x), ao.A[i].Canon(false))
				}
			}
			if got, want := a.String(), show(ao); got != want {
				return errf("String: %q instead of %q", got, want)
			}
		default:
			panic("BUG in harness: operation " + op.K)
		}
		return nil
	}
	all := append([]NOp{}, c.Ops...)
	for i := 0; i < 2; i++ {
		all = append(all, NOp{K: "keys", C: i}, NOp{K: "array", C: i}, NOp{K: "mconcat", C: i}, NOp{K: "aconcat", C: i})
		for _, k := range nKeys {
			all = append(all, NOp{K: "get", C: i, Key: k})
		}
	}
	for i, op := range all {
		if e := check(op); e != nil {
			return errf("operation %d, %s %d %q: %v", i, op.K, op.C, op.Key, e)
		}
	}
	for i := range maps {
		r.ClassIf(len(mm[i].keys) > 2, "map of more than 2 keys")
		r.ClassIf(len(am[i].A) > 2, "array of more than 2 elements")
	}
	r.ClassIf(replaced, "replaced")
	r.ClassIf(nested, "nested")
	r.NonTrivialIf(replaced || nested)
	return nil
}

// ConvertCase is a value to convert.
type ConvertCase struct {
	V NVal `json:"v"`
}

func genConvert(t *rapidT) ConvertCase {
	v := genNVal(t, 3)
	if pbt.Chance(t, "digits", 30) {
		// an array of digits, possibly nested
		v = NVal{K: "a"}
		for _, d := range strconv.Itoa(pbt.Int(t, "n", -100000, 1<<40)) {
			x := NVal{K: "s", S: pbt.Text(string(d))}
			switch pbt.Uniform(t, "wrap", 6) {
			case 0:
				x = NVal{K: "a", A: []NVal{x}}
			case 1:
				v.A = append(v.A, NVal{K: "u"})
			case 2:
				if d != '-' {
					x = NVal{K: "i", I: int(d - '0')}
				}
			}
			v.A = append(v.A, x)
		}
	}
	return ConvertCase{v}
}

func checkConvert(c ConvertCase, r *pbt.R) error {
	v := c.V.model()
	r.Exec()
	if hasMapInArray(v, false) {
		return nil
	}
	ast := c.V.ast()
	before := canonOf(ast)
	wantS, canS := toStr(v)
	wantI, canI := toInt(v)
	var s j.NativeString
	var n j.NativeInt
	if p := pbt.Catch(func() { s = j.NewNativeStringFrom(ast) }); (p == nil) != canS || canS && string(s) != wantS {
		return errf("the string from %s is %q (panic %v) instead of %q", before, string(s), p, wantS)
	}
	if p := pbt.Catch(func() { s = j.NativeStringFrom(ast).(j.NativeString) }); (p == nil) != canS || canS && string(s) != wantS {
		return errf("NativeStringFrom(%s) is %q (panic %v) instead of %q", before, string(s), p, wantS)
	}
	if p := pbt.Catch(func() { n = j.NewNativeIntFrom(ast) }); (p == nil) != canI || canI && n.Int() != wantI {
		return errf("the integer from %s is %d (panic %v) instead of %d", before, n, p, wantI)
	}
	if p := pbt.Catch(func() { n = j.NativeIntFrom(ast).(j.NativeInt) }); (p == nil) != canI || canI && n.Int() != wantI {
		return errf("NativeIntFrom(%s) is %d (panic %v) instead of %d", before, n, p, wantI)
	}
	if canI {
		if n.String() != strconv.Itoa(wantI) || n.Bool() != (wantI != 0) || canonOf(j.NewNativeIntFrom(j.NewNativeStringFrom(n))) != canonOf(n) {
			return errf("%d does not round-trip: %s", wantI, n)
		}
		r.Class("integer")
	}
	if canS {
		k, e := strconv.Atoi(wantS)
		var m j.NativeInt
		if p := pbt.Catch(func() { m = j.NewNativeIntFromString(wantS) }); (p == nil) != (e == nil) || e == nil && m.Int() != k {
			return errf("NewNativeIntFromString(%q) is %d, panic %v", wantS, m, p)
		}
		// any split of the string concatenates to it
		arr := j.NewEmptyNativeArray()
		for _, x := range wantS {
			arr.Append(j.NewNativeString(string(x)))
		}
		if string(arr.Concat()) != wantS {
			return errf("the characters of %q concatenate to %q", wantS, string(arr.Concat()))
		}
		r.Class("string")
	}
	if j.NewNativeIntFromBool(true).Int() != 1 || j.NewNativeIntFromBool(false).Int() != 0 || !j.NewNativeIntFromBool(true).Bool() || j.NewNativeIntFromBool(false).Bool() {
		return errf("conversions of booleans")
	}
	if j.IsUndefined(ast) != (v.K == 'U') {
		return errf("IsUndefined(%s) is %v", before, j.IsUndefined(ast))
	}
	if after := canonOf(ast); after != before {
		return errf("a conversion changed %s into %s", before, after)
	}
	r.Class(fmt.Sprintf("from %c", v.K))
	r.NonTrivialIf((canI || canS) && v.K != 'I')
	return nil
}
