// Package vlib is the frame of the bounded checks: it runs numbered cases, each generated from (seed, number) alone,
// against the real code, and writes what was covered and the first failing case.
package vlib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Violation struct {
	ID     string `json:"id"` // which rule is broken
	Case   int    `json:"case"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type Run struct {
	Prop     string
	Seed     int64
	Thorough bool
	Scratch  string
	R        *rand.Rand
	CaseNo   int
	// CrashGuard: the code under test runs goroutines whose panic ends the program; keep the current input on disk
	CrashGuard bool

	known    map[string]bool
	input    string
	distinct map[uint64]bool
	evals    int
	samples  []string
	viol     []Violation
	found    map[string]string
	deadline time.Time
	stop     bool
	errs     []string
}

type caseAbort struct{}

// Main runs gen for case numbers 0,1,... until the time is up. VERIF_CASE replays one case.
func Main(rule string, f func(r *Run)) {
	r := &Run{Prop: os.Getenv("VERIF_PROP"), distinct: map[uint64]bool{}, known: map[string]bool{}, found: map[string]string{}}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	if secs == 0 {
		secs = 10
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			r.known[k] = true
		}
	}
	r.Scratch = os.Getenv("VERIF_SCRATCH")
	if r.Scratch == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		r.Scratch = d
		defer os.RemoveAll(d)
	}
	os.Setenv("TMPDIR", r.Scratch)
	r.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	one := -1
	if c := os.Getenv("VERIF_CASE"); c != "" {
		one, _ = strconv.Atoi(c)
	}
	maxCases := 1 << 30
	if c := os.Getenv("VERIF_MAX"); c != "" {
		maxCases, _ = strconv.Atoi(c)
	}
	for i := 0; i < maxCases; i++ {
		if one >= 0 {
			i = one
		}
		r.CaseNo = i
		r.R = rand.New(rand.NewSource(r.Seed*1000003 + int64(i)))
		r.input = ""
		r.runCase(f)
		if one >= 0 || len(r.viol) > 0 || r.stop || time.Now().After(r.deadline) {
			break
		}
	}
	out := map[string]interface{}{"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": rule, "samples": r.samples, "violations": r.viol, "known": r.found, "errors": r.errs}
	js, _ := json.MarshalIndent(out, "", " ")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		if err := os.WriteFile(p, js, 0644); err != nil {
			panic(err)
		}
	} else {
		fmt.Println(string(js))
	}
}

func (r *Run) runCase(f func(r *Run)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(caseAbort); ok {
				return
			}
			if m := fmt.Sprint(e); strings.HasPrefix(m, "set-up:") {
				r.errs = append(r.errs, m)
				r.stop = true
				return
			}
			// a crash of the code under test on an input inside its domain
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			r.fail("panic", fmt.Sprintf("panic: %v\n%s", e, st))
		}
	}()
	f(r)
}

// Input records the case's input as text; it must be called before the code under test runs.
func (r *Run) Input(nontrivial bool, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	r.input = s
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(s))
		r.distinct[h.Sum64()] = true
	}
	if r.CrashGuard && os.Getenv("VERIF_OUT") != "" {
		os.WriteFile(os.Getenv("VERIF_OUT")+".cur", []byte(fmt.Sprintf("case %d\n%s", r.CaseNo, s)), 0644)
	}
	if len(r.samples) < 3 && nontrivial && r.evals%7 == 1 {
		t := s
		if len(t) > 1500 {
			t = t[:1500] + "..."
		}
		r.samples = append(r.samples, t)
	}
}

func (r *Run) fail(id, detail string) {
	if r.known[id] {
		if _, ok := r.found[id]; !ok {
			r.found[id] = fmt.Sprintf("case %d: %s", r.CaseNo, firstLines(detail, 3))
		}
		return
	}
	r.viol = append(r.viol, Violation{ID: id, Case: r.CaseNo, Input: r.input, Detail: detail})
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

// Report is Fail, but the case goes on.
func (r *Run) Report(id, format string, a ...interface{}) { r.fail(id, fmt.Sprintf(format, a...)) }

// Fail reports that rule id is broken on this case and ends the case.
func (r *Run) Fail(id, format string, a ...interface{}) {
	r.fail(id, fmt.Sprintf(format, a...))
	panic(caseAbort{})
}

// FailCont reports without ending the case.
func (r *Run) FailCont(id, format string, a ...interface{}) { r.fail(id, fmt.Sprintf(format, a...)) }

// Skip ends the case without a result.
func (r *Run) Skip() { panic(caseAbort{}) }

// Try runs f and returns the panic it ended with, if any.
func (r *Run) Try(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(caseAbort); ok {
				panic(e)
			}
			p = e
		}
	}()
	f()
	return nil
}

func (r *Run) Chance(p float64) bool   { return r.R.Float64() < p }
func (r *Run) Pick(ss []string) string { return ss[r.R.Intn(len(ss))] }

// Check that a and b are equal when printed.
func (r *Run) Same(id, what string, want, got interface{}) {
	w, g := fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got)
	if w != g {
		r.Fail(id, "%s\nwant: %s\ngot:  %s", what, w, g)
	}
}

// Dir makes an empty directory for the case.
func (r *Run) Dir(name string) string {
	d := filepath.Join(r.Scratch, fmt.Sprintf("c%d_%s", r.CaseNo, name))
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Git runs git in dir with a fixed environment.
func Git(dir string, stdin []byte, args ...string) (string, error) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = GitEnv()
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	if err != nil {
		err = fmt.Errorf("git %v: %v %s", args, err, e.String())
	}
	return o.String(), err
}

func GitEnv() []string {
	env := []string{"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_AUTHOR_NAME=A", "GIT_AUTHOR_EMAIL=a@x", "GIT_COMMITTER_NAME=C", "GIT_COMMITTER_EMAIL=c@x", "LC_ALL=C"}
	for _, k := range []string{"PATH", "HOME", "TMPDIR"} {
		env = append(env, k+"="+os.Getenv(k))
	}
	return env
}

// MustGit is Git for the harness's own set-up.
func MustGit(dir string, stdin []byte, args ...string) string {
	s, err := Git(dir, stdin, args...)
	if err != nil {
		panic(fmt.Sprint("set-up: ", err))
	}
	return s
}

func SortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
