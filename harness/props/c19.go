package props

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif/pbt"

	j "github.com/grepsuzette/joeson"
)

var c19 = &pbt.Prop{
	ID: "C19",
	Rule: "A case is the values of the environment variables TRACE and trace: settings read from them are compared with a model applying options from left to right over muted settings, malformed ones must be refused; presets and copies are checked under any environment. " +
		"Non-trivial: at least 2 options, or a refused one.",
	Assumptions: []string{
		"numbers of lines are the ones strconv.Atoi accepts",
	},
	Families: []pbt.Family{
		pbt.Fam("env", 1500000, 12000000, genEnv, checkEnv),
		pbt.Fam("copy", 500000, 4000000, func(t *rapidT) CopyCase {
			c := CopyCase{Stack: pbt.Bool(t, "stack"), Loop: pbt.Bool(t, "loop"), Grammar: pbt.Bool(t, "grammar"), SkipSetup: pbt.Bool(t, "skip"), FilterLine: pbt.Int(t, "line", -3, 100)}
			c.Mutation = pbt.Uniform(t, "mutation", 5)
			return c
		}, checkCopy),
	},
}

type EnvCase struct {
	Upper *string `json:"upper,omitempty"` // nil: unset
	Lower *string `json:"lower,omitempty"`
}

var envOptions = []string{"none", "stack", "loop", "grammar", "skipsetup", "all", "line=3", "line=0", "line=-1", "filterline=12", "line=007"}
var envBad = []string{"", "Stack", "stack ", " loop", "line", "line=", "line=x", "line=1=2", "line=1.5", "filterline=", "foo", "ALL", "line=99999999999999999999", "xline=3", "stackloop", "skip", "stack;loop", "none=1", "=", "filter=2", "line= 3", "line=3 ", "line=+3", "line=--1", "line=0x3", "line=1_0", "stack\t", "\nloop", "line=3\n", "FILTERLINE=3", "Line=3", "filterline=1=2", "line==3", "nones", "all ", "line=３", "line=3;", "stack=1", "grammars"}

func genEnv(t *rapidT) EnvCase {
	value := func(label string) *string {
		if pbt.Chance(t, label+".unset", 25) {
			return nil
		}
		var opts []string
		for k := pbt.Uniform(t, label+".n", 6); k > 0; k-- {
			if pbt.Chance(t, label+".bad", 8) {
				opts = append(opts, pbt.Pick(t, label, envBad))
			} else if pbt.Chance(t, label+".line", 20) {
				opts = append(opts, pbt.Pick(t, label, []string{"line=", "filterline="})+strconv.Itoa(pbt.Int(t, label+".i", -10, 5000)))
			} else {
				opts = append(opts, pbt.Pick(t, label, envOptions))
			}
		}
		s := strings.Join(opts, ",")
		return &s
	}
	return EnvCase{Upper: value("upper"), Lower: value("lower")}
}

// setEnv sets both variables and returns what restores them.
func setEnv(upper, lower *string) func() {
	var undo []func()
	for _, x := range []struct {
		k string
		v *string
	}{{"TRACE", upper}, {"trace", lower}} {
		k := x.k
		if old, ok := os.LookupEnv(k); ok {
			undo = append(undo, func() { os.Setenv(k, old) })
		} else {
			undo = append(undo, func() { os.Unsetenv(k) })
		}
		if x.v == nil {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, *x.v)
		}
	}
	return func() {
		for _, f := range undo {
			f()
		}
	}
}

// traceModel are the settings for a value which is not empty.
func traceModel(env string) (o j.TraceOptions, ok bool) {
	muted := j.TraceOptions{FilterLine: -1}
	o = muted
	for _, opt := range strings.Split(env, ",") {
		switch opt {
		case "none":
			o = muted
		case "all":
			o = j.TraceOptions{Stack: true, Grammar: true, SkipSetup: true, FilterLine: -1}
		case "stack":
			o.Stack = true
		case "loop":
			o.Loop = true
		case "grammar":
			o.Grammar = true
		case "skipsetup":
			o.SkipSetup = true
		default:
			num, isLine := strings.CutPrefix(opt, "line=")
			if !isLine {
				num, isLine = strings.CutPrefix(opt, "filterline=")
			}
			n, e := strconv.Atoi(num)
			if !isLine || e != nil {
				return o, false
			}
			o.FilterLine = n
		}
	}
	return o, true
}

func checkEnv(c EnvCase, r *pbt.R) error {
	r.Exec()
	defer setEnv(c.Upper, c.Lower)()
	env := ""
	if c.Upper != nil {
		env = *c.Upper
	}
	if env == "" && c.Lower != nil {
		env = *c.Lower
		r.ClassIf(env != "", "lowercase variable")
	}
	given := &j.TraceOptions{Loop: true, FilterLine: 5}
	if env == "" {
		var o, d *j.TraceOptions
		if p := pbt.Catch(func() { o, d = j.TraceOptionsFromEnvironmentOrUse(given), j.DefaultTraceOptions() }); p != nil || o == nil || d == nil {
			return errf("without any variable: %v, panic %v", o, p)
		}
		if *d != (j.TraceOptions{Grammar: true, SkipSetup: true, FilterLine: -1}) {
			return errf("the default settings without any variable are %+v", *d)
		}
		if *o != *given {
			return errf("without any variable the settings are %+v instead of the given ones", *o)
		}
	} else {
		want, ok := traceModel(env)
		for name, f := range map[string]func() *j.TraceOptions{
			"TraceOptionsFromEnvironmentOrUse": func() *j.TraceOptions { return j.TraceOptionsFromEnvironmentOrUse(given) },
			"DefaultTraceOptions":              j.DefaultTraceOptions,
		} {
			var o *j.TraceOptions
			p := pbt.Catch(func() { o = f() })
			if ok && (p != nil || o == nil || *o != want) {
				return errf("%s with TRACE=%q: %s, panic %v; instead of %+v", name, env, showOpts(o), p, want)
			}
			if !ok && p == nil {
				return errf("%s: TRACE=%q is not refused; the settings are %s", name, env, showOpts(o))
			}
		}
		r.ClassIf(!ok, "refused")
		r.NonTrivialIf(!ok || strings.Contains(env, ","))
	}
	if *given != (j.TraceOptions{Loop: true, FilterLine: 5}) {
		return errf("the given settings were changed into %+v", *given)
	}
	if *j.Mute() != (j.TraceOptions{FilterLine: -1}) {
		return errf("muted settings depend on the environment: %+v", *j.Mute())
	}
	if *j.Verbose() != (j.TraceOptions{Stack: true, Grammar: true, SkipSetup: true, FilterLine: -1}) {
		return errf("verbose settings are not the documented ones: %+v", *j.Verbose())
	}
	return nil
}

func showOpts(o *j.TraceOptions) string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", *o)
}

type CopyCase struct {
	Stack, Loop, Grammar, SkipSetup bool
	FilterLine                      int
	Mutation                        int
}

func checkCopy(c CopyCase, r *pbt.R) error {
	r.Exec()
	o := j.TraceOptions{Stack: c.Stack, Loop: c.Loop, Grammar: c.Grammar, SkipSetup: c.SkipSetup, FilterLine: c.FilterLine}
	orig := o
	k := o.Copy()
	if *k != orig || o != orig {
		return errf("the copy of %+v is %+v", orig, *k)
	}
	flip := func(x *j.TraceOptions) {
		switch c.Mutation {
		case 0:
			x.Stack = !x.Stack
		case 1:
			x.Loop = !x.Loop
		case 2:
			x.Grammar = !x.Grammar
		case 3:
			x.SkipSetup = !x.SkipSetup
		case 4:
			x.FilterLine += 3
		}
	}
	flip(k)
	if o != orig {
		return errf("changing a copy changed the original: %+v instead of %+v", o, orig)
	}
	k2 := o.Copy()
	flip(&o)
	if *k2 != orig {
		return errf("changing the original changed a copy: %+v instead of %+v", *k2, orig)
	}
	a, b := j.Mute(), j.Mute()
	flip(a)
	va, vb := j.Verbose(), j.Verbose()
	flip(va)
	if *b != *j.Mute() || *vb != *j.Verbose() || *a == *b || *va == *vb {
		return errf("presets are shared")
	}
	r.NonTrivialIf(c.Stack || c.Loop || c.Grammar || c.SkipSetup)
	return nil
}
