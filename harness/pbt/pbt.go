// Package pbt drives generated-input checks: every property is a set of
// families, every family is a generator (rapid) and a check of one case.
// A case is a JSON value, so that a failing case is replayed without rapid.
package pbt

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Text is a string which may hold any bytes, and survives JSON.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if e := json.Unmarshal(b, &m); e != nil {
		return e
	}
	raw, e := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(raw)
	return e
}

// R collects what a case covered.
type R struct {
	nontrivial bool
	classes    []string
	execs      int
}

func (r *R) NonTrivial()         { r.nontrivial = true }
func (r *R) NonTrivialIf(b bool) { r.nontrivial = r.nontrivial || b }
func (r *R) Class(s string)      { r.classes = append(r.classes, s) }
func (r *R) Exec()               { r.execs++ }
func (r *R) ClassIf(b bool, s string) {
	if b {
		r.Class(s)
	}
}

type Family struct {
	Name     string
	Quick    int // cases over all shards
	Thorough int
	Gen      func(*rapid.T) json.RawMessage
	Run      func(json.RawMessage, *R) error
}

// Fam makes a family from a typed generator and a typed check.
func Fam[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(C, *R) error) Family {
	return Family{
		Name: name, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) json.RawMessage {
			return Encode(gen(t))
		},
		Run: func(raw json.RawMessage, r *R) error {
			var c C
			dec := json.NewDecoder(bytes.NewReader(raw))
			if e := dec.Decode(&c); e != nil {
				panic("BUG in harness: undecodable case: " + e.Error())
			}
			return check(c, r)
		},
	}
}

func Encode(c any) json.RawMessage {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if e := enc.Encode(c); e != nil {
		panic("BUG in harness: unencodable case: " + e.Error())
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

// Finding is a genuine defect which is recorded rather than repaired. The probe
// runs the specific failing input; it returns nil when it does not fail anymore.
type Finding struct {
	ID    string
	Probe func() error
}

type Prop struct {
	ID          string
	Families    []Family
	Rule        string
	Assumptions []string
	Findings    []Finding
	Race        bool // needs a binary built with -race
	Shards      int  // 0 means default
}

// Guard runs the check of a case; an unexpected panic of the code under test is
// a failure.
func Guard(f Family, raw json.RawMessage, r *R) (err error) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.HasPrefix(s, "BUG in harness") {
				panic(p)
			}
			err = fmt.Errorf("unexpected panic: %s\n%s", s, trimStack(string(debug.Stack())))
		}
	}()
	return f.Run(raw, r)
}

func trimStack(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "\n..."
	}
	return s
}

// Catch runs f and returns what it panicked with (nil when it did not).
func Catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}
