package props

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"

	"verif/model"
	"verif/pbt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

var c22 = &pbt.Prop{
	ID: "C22",
	Rule: "A case is 2 to 4 jobs, each run on a goroutine of its own in a binary with Go's race detector, several times each: building a generated grammar and parsing texts or tokens with it (muted, traced, or with a compiler of its own), building and running one of the languages of C21, refused rule texts, tokenizing Go sources, operations on character or token streams, on native values, and helpers. " +
		"Each job must have the outcome of the reference (computed before), the one it has when run alone afterwards, and the race detector must have nothing to say. " +
		"Non-trivial: at least 2 jobs build a grammar or tokenize, and one parse was accepted.",
	Assumptions: []string{
		"goroutines share no grammar, stream, native value or options",
		"the race detector sees accesses which are not ordered by the synchronizations of the run; ordering by chance (e.g. through sync.Pool in fmt or regexp) may hide a race in one run, not in all",
	},
	Race: true,
	Families: []pbt.Family{
		pbt.Fam("grammars", 48, 800, genJobs([]string{"grammar", "grammar", "rich", "lr"}), checkJobs),
		pbt.Fam("mixed", 96, 1500, genJobs([]string{"grammar", "rich", "lr", "tokens", "trace", "language", "refused", "go", "stream", "tokenstream", "native", "helpers", "convert"}), checkJobs),
		pbt.Fam("same", 64, 900, genSame, checkJobs),
		pbt.Fam("cold", 48, 700, genJobs([]string{"grammar", "grammar", "rich", "tokens", "trace", "language", "refused", "go", "go", "tokenstream", "native", "helpers", "convert"}), checkCold),
		pbt.Fam("cold-same", 40, 500, genSame, checkCold),
		pbt.Fam("values", 320, 4500, genJobs([]string{"go", "go", "stream", "tokenstream", "native", "helpers", "convert"}), checkJobs),
	},
}

// Job is the work of one goroutine.
type Job struct {
	K string          `json:"k"`
	C json.RawMessage `json:"c"`
}

type JobsCase struct {
	Jobs   []Job `json:"jobs"`
	Repeat int   `json:"repeat"`
}

func genJob(t *rapidT, kind string) Job {
	var c any
	switch kind {
	case "grammar":
		g := model.Growing(t, model.GenGrammar(t, model.GenOpts{MaxRules: 5, Depth: 3, Shapes: true, Labels: true, Skip: true, Callbacks: anyCallback}))
		c = GCase{G: g, Texts: shortened(model.GenTexts(t, g, 4), 150), Opt: pbt.Uniform(t, "opt", 4)}
	case "rich", "tokens", "trace":
		g := model.Declared(t, model.GenRich(t, []int{model.CBNode, model.CBNone, model.CBPicky}, pbt.Chance(t, "labels", 50)))
		gc := GCase{G: g, Texts: shortened(model.GenTexts(t, g, 3), 120), Opt: pbt.Uniform(t, "opt", 4)}
		c = gc
		if kind == "tokens" {
			c = genTokenParse(func(*rapidT) GCase { return gc })(t)
		}
	case "lr":
		gc := genLR([]int{model.CBNone, model.CBNode}, true)(t)
		gc.Opt = pbt.Uniform(t, "opt4", 4)
		c = gc
	case "language":
		n := pbt.Uniform(t, "language", len(languages))
		p := genProgram(languages[n])(t)
		p.Opt = n
		c = p
	case "refused":
		c = TextsCase{Texts: []pbt.Text{pbt.Text(pbt.Pick(t, "bad", badRules)), pbt.Text(pbt.Pick(t, "bad", badRules))}}
	case "go":
		c = pbt.Pick(t, "which", []func(*rapidT) GoCase{genGoTokens, genGoPairs, genGoCode, genGoBytes})(t)
	case "stream":
		c = genStream(16, 14, true)(t)
	case "tokenstream":
		c = genTokens(16, 14)(t)
	case "native":
		c = genNative("ma", 16)(t)
	case "convert":
		c = genConvert(t)
	case "helpers":
		c = TextCase{S: pbt.Text(genStreamText(t, "text", 8, true)), I: pbt.Uniform(t, "i", 33) - 16, J: pbt.Uniform(t, "j", 33) - 16, K: pbt.Uniform(t, "k", 1<<10)}
	}
	return Job{kind, pbt.Encode(c)}
}

func genJobs(kinds []string) func(*rapidT) JobsCase {
	return func(t *rapidT) JobsCase {
		c := JobsCase{Repeat: 1 + pbt.Uniform(t, "repeat", 3)}
		for n := 2 + pbt.Uniform(t, "jobs", 3); n > 0; n-- {
			c.Jobs = append(c.Jobs, genJob(t, pbt.Pick(t, "kind", kinds)))
		}
		return c
	}
}

// genSame: the goroutines do the same thing, each with its own objects.
func genSame(t *rapidT) JobsCase {
	c := JobsCase{Repeat: 1 + pbt.Uniform(t, "repeat", 2)}
	job := genJob(t, pbt.Pick(t, "kind", []string{"grammar", "rich", "lr", "tokens", "trace", "language", "refused", "go", "native", "helpers"}))
	for n := 2 + pbt.Uniform(t, "jobs", 3); n > 0; n-- {
		c.Jobs = append(c.Jobs, job)
	}
	return c
}

// a task is a job where all that needs the reference was done.
type task struct {
	run    func() (outcome string, err error)
	builds bool
	active bool // some text is accepted
}

func decode[C any](raw json.RawMessage) (c C) {
	if e := json.Unmarshal(raw, &c); e != nil {
		panic("BUG in harness: undecodable job: " + e.Error())
	}
	return
}

// ownCompiler makes options that share nothing with another goroutine.
func ownCompiler(opt int) j.GrammarOptions {
	switch opt {
	case 0:
		return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromFunc(func() *j.Grammar { return j.NewJoesonWithOptions(j.Mute()) })}
	case 1:
		return j.GrammarOptions{}
	case 2:
		return j.GrammarOptions{TraceOptions: j.DefaultTraceOptions()}
	}
	return muted()
}

func (job Job) prepare() task {
	grammarTask := func(c GCase, parse func(gm *j.Grammar, i int) j.Ast, opts func() j.GrammarOptions, more ...j.ParseOption) task {
		type wanted struct {
			r    model.Result
			text string
			ok   bool
		}
		var want []wanted
		t := task{builds: true}
		for _, text := range c.Texts {
			p, r, ok := interp(c.G, string(text))
			ok = ok && p.Grown < 100
			want = append(want, wanted{r, string(text), ok})
			t.active = t.active || ok && r.OK && text != ""
		}
		t.run = func() (string, error) {
			rec := &Recorder{}
			if c.G.Decl != nil {
				rec.Compiler = j.NewJoesonWithOptions(j.Mute())
			}
			gm := j.GrammarWithOptionsFromLines("gm", opts(), Lines(c.G, nil, rec, c.Sigs))
			all := ""
			for i, w := range want {
				if !w.ok {
					continue
				}
				var o Outcome
				if parse != nil {
					o = ToOutcome(parse(gm, i))
				} else {
					o = ToOutcome(gm.ParseString(w.text, more...))
				}
				if e := compare(w.r, o, w.text, "short"); e != nil {
					return all, errf("%v\ntext: %q\ngrammar:\n%s", e, w.text, Describe(c.G))
				}
				all += o.String() + "\n"
			}
			return all + fmt.Sprint(rec.Log), nil
		}
		return t
	}
	checked := func(f func(*pbt.R) error) task {
		return task{run: func() (string, error) { return "", f(&pbt.R{}) }}
	}
	switch job.K {
	case "grammar", "rich", "lr":
		c := decode[GCase](job.C)
		return grammarTask(c, nil, func() j.GrammarOptions { return ownCompiler(c.Opt) })
	case "trace":
		c := decode[GCase](job.C)
		c.Texts = shortened(c.Texts, 40)
		return grammarTask(c, nil, func() j.GrammarOptions {
			o := muted()
			o.TraceOptions = &j.TraceOptions{Stack: c.Opt&1 != 0, Loop: c.Opt&2 != 0, Grammar: c.Opt == 1, SkipSetup: true, FilterLine: -1}
			return o
		}, j.Debug{Bool: c.Opt == 2})
	case "tokens":
		c := decode[TokenParseCase](job.C)
		return grammarTask(c.GCase, func(gm *j.Grammar, i int) j.Ast {
			source, spans := spread(string(c.Texts[i]), c.Tapes[i])
			ts, _ := tokensOf(source, spans)
			return gm.ParseTokens(ts)
		}, muted)
	case "language":
		c := decode[ProgramCase](job.C)
		l := languages[c.Opt]
		t := checked(func(r *pbt.R) error { return runProgram(l, c, muted(), r) })
		t.builds = true
		for _, text := range c.Texts {
			_, ok := l.eval(string(text))
			t.active = t.active || ok
		}
		return t
	case "refused":
		c := decode[TextsCase](job.C)
		return task{builds: true, run: func() (string, error) {
			out := ""
			for _, bad := range c.Texts {
				p := pbt.Catch(func() {
					j.GrammarWithOptionsFromLines("bad", muted(), []j.Line{j.O(j.Named("Z", string(bad))), j.I(j.Named("A", "'a'"))})
				})
				out += fmt.Sprintln(p != nil)
			}
			return out, nil
		}}
	case "go":
		c := decode[GoCase](job.C)
		t := checked(func(r *pbt.R) error { return checkGo(c, r) })
		t.builds, t.active = true, true
		return t
	case "stream":
		c := decode[StreamCase](job.C)
		return checked(func(r *pbt.R) error { return checkStream(c, r) })
	case "tokenstream":
		c := decode[TokensCase](job.C)
		return checked(func(r *pbt.R) error { return checkTokens(c, r) })
	case "native":
		c := decode[NativeCase](job.C)
		return checked(func(r *pbt.R) error { return checkNative(c, r) })
	case "convert":
		c := decode[ConvertCase](job.C)
		return checked(func(r *pbt.R) error { return checkConvert(c, r) })
	case "helpers":
		c := decode[TextCase](job.C)
		return checked(func(r *pbt.R) error { return checkText(c, r) })
	}
	panic("BUG in harness: unknown job " + job.K)
}

// checkCold runs the jobs in a process of their own, so that what is done once per
// process is done by the goroutines.
func checkCold(c JobsCase, r *pbt.R) error {
	f, e := os.CreateTemp("", "verif-cold-*.json")
	if e != nil {
		panic("BUG in harness: " + e.Error())
	}
	defer os.Remove(f.Name())
	enc, _ := json.Marshal(pbt.CaseFile{Property: "C22", Family: "mixed", Case: pbt.Encode(c)})
	f.Write(enc)
	f.Close()
	self, _ := os.Executable()
	cmd := exec.Command(self, "replay", f.Name())
	out, e := cmd.CombinedOutput()
	r.Exec()
	builds := 0
	for _, job := range c.Jobs {
		r.Class("job " + job.K)
		if t := job.prepare(); t.builds {
			builds++
		}
	}
	r.NonTrivialIf(builds >= 2)
	if e == nil {
		return nil
	}
	s := string(out)
	if x, ok := e.(*exec.ExitError); ok && !strings.Contains(s, "BUG in harness") {
		switch x.ExitCode() {
		case 66:
			return errf("data race in a fresh process\n%s", clip(s, 4000))
		case 1, 2, pbt.ExitHang, pbt.ExitMemory:
			return errf("in a fresh process: %s", clip(s, 4000))
		}
	}
	panic(fmt.Sprintf("BUG in harness: a cold process ended with %v: %s", e, clip(s, 500)))
}

func checkJobs(c JobsCase, r *pbt.R) error {
	var tasks []task
	for _, job := range c.Jobs {
		tasks = append(tasks, job.prepare())
	}
	outcomes := make([][]string, len(tasks))
	errs := make([]error, len(tasks))
	var wg sync.WaitGroup
	start := make(chan struct{})
	builds, active := 0, false
	for i, t := range tasks {
		r.Exec()
		r.Class("job " + c.Jobs[i].K)
		if t.builds {
			builds++
		}
		active = active || t.active
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = errf("unexpected panic: %v", p)
				}
			}()
			<-start
			for n := 0; n < c.Repeat; n++ {
				o, e := t.run()
				if e != nil {
					errs[i] = e
					return
				}
				outcomes[i] = append(outcomes[i], o)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, t := range tasks {
		alone, e := t.run()
		if e != nil {
			return errf("job %d (%s), alone: %v", i, c.Jobs[i].K, e)
		}
		if errs[i] != nil {
			return errf("job %d (%s), along with others: %v", i, c.Jobs[i].K, errs[i])
		}
		for _, o := range outcomes[i] {
			if o != alone {
				return errf("job %d (%s): %s; when alone: %s", i, c.Jobs[i].K, o, alone)
			}
		}
	}
	r.NonTrivialIf(builds >= 2 && active)
	return nil
}
