package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Run spawns the shards, gathers their results, writes the evidence file, and
// returns the exit code of the check.
func Run(p *Prop, tier string, seed int64, verif string) int {
	start := time.Now()
	self, e := os.Executable()
	if e != nil {
		return infra("no executable: %v", e)
	}
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 700 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, e := strconv.Atoi(s); e == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	tmp, e := os.MkdirTemp("", "verif-"+p.ID+"-")
	if e != nil {
		return infra("%v", e)
	}
	defer os.RemoveAll(tmp)
	nshards := 8
	if p.Shards > 0 {
		nshards = p.Shards
	}
	deadline := start.Add(budget)

	// known findings
	findings, e := readFindings(filepath.Join(verif, "known_findings.txt"), p)
	if e != nil {
		return infra("%v", e)
	}

	type done struct {
		i      int
		err    error
		stderr string
	}
	ch := make(chan done, nshards)
	procs := make([]*exec.Cmd, nshards)
	dirs := make([]string, nshards)
	errs := make([]*bytes.Buffer, nshards)
	for i := 0; i < nshards; i++ {
		dirs[i] = filepath.Join(tmp, fmt.Sprint(i))
		os.Mkdir(dirs[i], 0o755)
		c := exec.Command(self, "shard", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nshards), dirs[i], fmt.Sprint(deadline.Unix()), filepath.Join(verif, "corpus"))
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		errs[i] = &bytes.Buffer{}
		c.Stderr = errs[i]
		c.Env = childEnv()
		procs[i] = c
	}
	started := 0
	for i, c := range procs {
		if e := c.Start(); e != nil {
			for _, k := range procs[:i] {
				syscall.Kill(-k.Process.Pid, syscall.SIGKILL)
			}
			return infra("start: %v", e)
		}
		started++
		go func() {
			err := c.Wait()
			ch <- done{i, err, errs[i].String()}
		}()
	}
	var failure *CaseFile
	var problem string
	killed := map[int]bool{}
	total := &ShardResult{PerFamily: map[string]int{}, Classes: map[string]int{}, Samples: map[string][]json.RawMessage{}}
	hashes := map[uint64]bool{}
	hard := time.After(time.Until(deadline) + 120*time.Second)
	for n := 0; n < started; {
		var d done
		select {
		case d = <-ch:
			n++
		case <-hard:
			for _, k := range procs {
				syscall.Kill(-k.Process.Pid, syscall.SIGKILL)
			}
			if failure == nil {
				return infra("shards did not end in time")
			}
			hard = nil
			continue
		}
		if killed[d.i] {
			continue
		}
		if d.err != nil {
			// killed, crashed, or ended by its watchdog
			cf, why := diagnose(self, p, dirs[d.i], d.err, d.stderr)
			if cf != nil {
				if failure == nil {
					failure = cf
				}
			} else if problem == "" {
				problem = fmt.Sprintf("shard %d: %v: %s\n%s", d.i, d.err, why, tail(d.stderr, 3000))
			}
		} else {
			var r ShardResult
			b, e := os.ReadFile(filepath.Join(dirs[d.i], "result"))
			if e == nil {
				e = json.Unmarshal(b, &r)
			}
			if e != nil {
				problem = fmt.Sprintf("shard %d: no result: %v\n%s", d.i, e, tail(d.stderr, 3000))
				continue
			}
			if r.Error != "" && problem == "" {
				problem = r.Error + "\n" + tail(d.stderr, 3000)
			}
			if r.Failure != nil && failure == nil {
				failure = r.Failure
			}
			total.Evaluations += r.Evaluations
			total.Executions += r.Executions
			total.Skipped += r.Skipped
			for k, v := range r.PerFamily {
				total.PerFamily[k] += v
			}
			for k, v := range r.Classes {
				total.Classes[k] += v
			}
			for k, v := range r.Samples {
				if len(total.Samples[k]) < 2 && len(v) > 0 {
					total.Samples[k] = append(total.Samples[k], v[len(v)-1])
				}
			}
			for _, h := range r.Hashes {
				hashes[h] = true
			}
		}
		if failure != nil {
			for j, k := range procs {
				if !killed[j] && j != d.i {
					killed[j] = true
					syscall.Kill(-k.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}

	// known findings: deterministic probes
	for _, f := range findings {
		out, e := probe(self, p, f.id)
		if e != nil {
			if problem == "" {
				problem = fmt.Sprintf("probe %s: %v", f.id, e)
			}
			continue
		}
		if out {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, tail(f.what, 1000))
		} else {
			fmt.Printf("note: the known finding %s of %s does not occur anymore\n", f.id, p.ID)
		}
	}

	writeEvidence(p, tier, seed, verif, total, len(hashes), failure, len(findings), time.Since(start))

	if failure != nil {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(failure, "", " ")
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s-%d.json", p.ID, failure.Family, tier, seed))
		if e := os.WriteFile(path, b, 0o644); e != nil {
			return infra("%v", e)
		}
		fmt.Printf("family %s: %s\ncase: %s\n", failure.Family, tail(failure.Error, 4000), tail(string(failure.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if problem != "" {
		return infra("%s", problem)
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d distinct non-trivial, %d skipped on budget), %.1fs\n", p.ID, tier, seed, total.Evaluations, len(hashes), total.Skipped, time.Since(start).Seconds())
	if total.Evaluations == 0 || len(hashes) == 0 {
		return infra("nothing was explored")
	}
	return 0
}

func childEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if strings.EqualFold(k, "TRACE") || strings.HasPrefix(k, "RAPID_") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66")
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}

func infra(f string, a ...any) int {
	fmt.Printf("CHECK ERROR: "+f+"\n", a...)
	return 3
}

// diagnose tells whether the end of a shard is due to the code under test: the
// case which was running must end a fresh process the same way.
func diagnose(self string, p *Prop, dir string, err error, stderr string) (*CaseFile, string) {
	// a failure which was found before (e.g. the shard died while shrinking it)
	if b, e := os.ReadFile(filepath.Join(dir, "fail")); e == nil {
		var cf CaseFile
		if json.Unmarshal(b, &cf) == nil {
			return &cf, ""
		}
	}
	if strings.Contains(stderr, "BUG in harness") {
		return nil, "bug in the harness"
	}
	b, e := os.ReadFile(filepath.Join(dir, "cur"))
	if e != nil {
		return nil, "no current case"
	}
	parts := strings.SplitN(string(b), "\n", 3)
	if len(parts) != 3 {
		return nil, "no current case"
	}
	n, e := strconv.Atoi(parts[1])
	if e != nil || n > len(parts[2]) {
		return nil, "bad current case"
	}
	cf := &CaseFile{p.ID, parts[0], json.RawMessage(parts[2][:n]), ""}
	what := describeEnd(err, stderr)
	if what == "" {
		return nil, "ended for a reason which is not the code under test"
	}
	file := filepath.Join(dir, "confirm.json")
	enc, _ := json.Marshal(cf)
	os.WriteFile(file, enc, 0o644)
	tries := 1
	if p.Race {
		tries = 5 // a race may need several attempts to be seen again
	}
	for i := 0; i < tries; i++ {
		c := exec.Command(self, "replay", file)
		var out bytes.Buffer
		c.Stderr = &out
		c.Stdout = &out
		c.Env = childEnv()
		e = c.Run()
		if e != nil {
			if strings.Contains(out.String(), "BUG in harness") {
				return nil, "bug in the harness: " + tail(out.String(), 2000)
			}
			if w := describeEnd(e, out.String()); w != "" {
				cf.Error = w + "\n" + tail(out.String(), 4000)
				return cf, ""
			}
			if x, ok := e.(*exec.ExitError); ok && x.ExitCode() == 1 {
				cf.Error = tail(out.String(), 4000)
				return cf, ""
			}
		}
	}
	if p.Race && strings.Contains(stderr, "WARNING: DATA RACE") {
		cf.Error = "data race\n" + tail(stderr, 4000)
		return cf, ""
	}
	return nil, "not reproduced in a fresh process: " + what
}

func describeEnd(err error, stderr string) string {
	x, ok := err.(*exec.ExitError)
	if !ok {
		return ""
	}
	switch {
	case x.ExitCode() == ExitHang:
		return "the case does not terminate (CPU limit)"
	case x.ExitCode() == ExitMemory:
		return "the case allocates without bound (memory limit)"
	case x.ExitCode() == 66 && strings.Contains(stderr, "DATA RACE"):
		return "data race"
	case strings.Contains(stderr, "stack exceeds"):
		return "stack overflow"
	case strings.Contains(stderr, "fatal error: concurrent map"):
		return "concurrent map access"
	case x.ExitCode() == 2 && (strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:")):
		return "crash"
	case x.ExitCode() == 1 && strings.Contains(stderr, "REPRODUCED"):
		return "failure"
	case x.ExitCode() >= 0 && x.ExitCode() != 3:
		return fmt.Sprintf("the process exited with status %d", x.ExitCode())
	}
	return ""
}

type finding struct{ id, what string }

// known_findings.txt holds lines
//
//	finding: property=<id> probe=<name> <what fails>
//	fixed: property=<id> <commit> <what failed>
func readFindings(path string, p *Prop) ([]finding, error) {
	b, e := os.ReadFile(path)
	if e != nil {
		return nil, e
	}
	var out []finding
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+p.ID+" probe=")
		if !ok {
			continue
		}
		id, what, _ := strings.Cut(rest, " ")
		out = append(out, finding{id, what})
	}
	return out, nil
}

func probe(self string, p *Prop, id string) (occurs bool, err error) {
	c := exec.Command(self, "probe", p.ID, id)
	c.Env = childEnv()
	out, e := c.CombinedOutput()
	if e == nil {
		return false, nil
	}
	if x, ok := e.(*exec.ExitError); ok && x.ExitCode() == 10 {
		return true, nil
	}
	return false, fmt.Errorf("%v: %s", e, tail(string(out), 2000))
}

func writeEvidence(p *Prop, tier string, seed int64, verif string, total *ShardResult, distinct int, failure *CaseFile, nfindings int, wall time.Duration) {
	samples := []any{}
	names := []string{}
	for k := range total.Samples {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for _, raw := range total.Samples[k] {
			samples = append(samples, map[string]any{"family": k, "case": raw})
		}
	}
	if failure != nil {
		samples = append(samples, map[string]any{"family": failure.Family, "violation": failure.Case})
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the run ended before a case was recorded")
	}
	violations := 0
	if failure != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":           total.Evaluations,
			"distinct_nontrivial":   distinct,
			"rule":                  p.Rule,
			"samples":               samples,
			"cases_per_family":      total.PerFamily,
			"parses_or_operations":  total.Executions,
			"classes":               total.Classes,
			"skipped_on_budget":     total.Skipped,
			"known_findings_probed": nfindings,
		},
		"assumptions": p.Assumptions,
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
