// Package props holds one decision procedure per property.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"webrpcverif/ai"
)

const (
	Root   = "github.com/webrpc/webrpc"
	Schema = Root + "/schema"
	RIDL   = Schema + "/ridl"
	Graph  = RIDL + "/internal/graph"
	GenPkg = Root + "/gen"
	CmdPkg = Root + "/cmd/webrpc-gen"
)

// Violation is a construct of the analysed source that breaks the property.
type Violation struct {
	Obligation string
	Where      string
	Msg        string
	Trace      []string
}

// Oblig is the record of one obligation.
type Oblig struct {
	Name      string
	Verdict   string // holds, violated, undecided
	Detail    string
	States    int
	Steps     int
	Acts      int
	Functions int
	CallSites int
	Seconds   float64
}

// Ctx is the run of one property.
type Ctx struct {
	ID       string
	Tier     string
	Repo     string
	Verif    string
	Core     *ai.Program // root, schema, schema/ridl
	Gen      *ai.Program // and gen, cmd/webrpc-gen
	Thorough bool

	start time.Time

	mu         sync.Mutex
	Violations []Violation
	Obligs     []Oblig
	Funcs      map[string]bool
	Sites      map[string]bool
	Rules      []string
	Assumed    map[string]bool
	Counts     map[string]any // further measured counts for the evidence
	jobs       []func()
	Only       string

	host *Ctx            // takes the scenarios instead
	as   func(Scen) Scen // makes another obligation of a scenario
}

// Reuse schedules what the scenarios of another property are used for here.
func (c *Ctx) Reuse(id string, as func(Scen) Scen) {
	sub := NewCtx(id, c.Repo, c.Verif, c.Tier)
	sub.Core, sub.Gen, sub.host, sub.as = c.Core, c.Gen, c, as
	registry[id](sub)
}

func NewCtx(id, repo, verif, tier string) *Ctx {
	return &Ctx{ID: id, Repo: repo, Verif: verif, Tier: tier, Thorough: tier == "thorough",
		Funcs: map[string]bool{}, Sites: map[string]bool{}, Assumed: map[string]bool{}, Counts: map[string]any{}}
}

func (c *Ctx) Violate(oblig, where, msg string, trace ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.Violations {
		if v.Obligation == oblig && v.Where == where && v.Msg == msg {
			return
		}
	}
	c.Violations = append(c.Violations, Violation{oblig, where, msg, trace})
}

func (c *Ctx) Record(o Oblig) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Obligs = append(c.Obligs, o)
}

// Rule describes what is decided.
func (c *Ctx) Rule(format string, args ...any) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, args...))
}

func (c *Ctx) LoadCore() error {
	if c.Core != nil {
		return nil
	}
	p, err := ai.Load(ai.LoadConfig{Dir: c.Repo, Patterns: []string{".", "./schema/..."}, SrcPrefix: []string{Root}, Env: []string{"GOFLAGS="}})
	if err != nil {
		return err
	}
	c.Core = p
	return nil
}

// Job runs f concurrently with the other jobs.
func (c *Ctx) Job(f func()) { c.jobs = append(c.jobs, f) }

func (c *Ctx) Wait() {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan func())
	done := make(chan struct{})
	go watchMemory(done)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				for ai.MemoryLow.Load() {
					time.Sleep(100 * time.Millisecond)
				}
				f()
			}
		}()
	}
	for _, f := range c.jobs {
		ch <- f
	}
	close(ch)
	wg.Wait()
	close(done)
	c.jobs = nil
	sort.Slice(c.Obligs, func(i, j int) bool { return c.Obligs[i].Name < c.Obligs[j].Name })
	sort.Slice(c.Violations, func(i, j int) bool {
		a, b := c.Violations[i], c.Violations[j]
		if a.Obligation != b.Obligation {
			return a.Obligation < b.Obligation
		}
		return a.Msg < b.Msg
	})
}

// Scen is an abstract execution of one entry point from an initial state that
// covers all inputs with a certain feature.
type Scen struct {
	Name string
	// Build sets up the state and returns the function and its arguments.
	Build func(b *ai.B) (*ssa.Function, []ai.Value)
	// Check inspects a result; a non-empty string is a violation.
	Check func(b *ai.B, r *ai.Result) string
	// Out inspects terminal events (panics, exits, deadlocks).
	Out func(b *ai.B, o *ai.Outcome) string
	// Done inspects the finished run.
	Done func(b *ai.B, results []*ai.Result) string
	// Found tells what was found on the way, which stands even if a limit was reached.
	Found func(b *ai.B) string
	// NeedNil requires that some result has a nil error (not vacuous).
	NeedNil bool
	// Allow lists the unmodelled functions that do not matter here.
	MaxStates int
	Prog      *ai.Program
	Raw       bool // keep everything calls learn
	Deep      bool // what is arbitrary has no null in its lists
	Elsewhere bool // the scenario is another property's: nothing is required of its functions
}

// Scenario schedules the analysis of a scenario.
func (c *Ctx) Scenario(s Scen) {
	if c.host != nil {
		s = c.as(s)
		if s.Build == nil {
			return
		}
		s.Name = c.ID + " " + s.Name
		s.Elsewhere = true
		c.host.Scenario(s)
		return
	}
	if c.Only != "" && !strings.Contains(s.Name, c.Only) {
		return
	}
	c.Job(func() {
		if why := c.enough(); why != "" {
			c.Record(Oblig{Name: s.Name, Verdict: "undecided", Detail: why})
			return
		}
		c.runScenario(s)
	})
}

// enough tells why no further obligations are looked at: the time of a check
// is limited, and a broken property need not be broken in every way.
func (c *Ctx) enough() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case c.start.IsZero():
		c.start = time.Now()
	case time.Since(c.start) > c.budget():
		return "the time of the check is used up"
	case len(c.Violations) >= 40 && os.Getenv("VERIF_ALL") == "":
		return "enough violations have been found"
	}
	return ""
}

func (c *Ctx) budget() time.Duration {
	if c.Thorough {
		return 660 * time.Second
	}
	return 480 * time.Second
}

func (c *Ctx) runScenario(s Scen) {
	t0 := time.Now()
	o := Oblig{Name: s.Name, Verdict: "holds"}
	p := s.Prog
	if p == nil {
		p = c.Core
	}
	var b *ai.B
	defer func() {
		if x := recover(); x != nil {
			if m, ok := x.(ai.Missing); ok && !s.Elsewhere {
				o.Verdict, o.Detail = "violated", m.Error()
				c.Violate(s.Name, m.What, "the analysed program has no "+m.What+" any more, so the property cannot be established")
			} else {
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				o.Verdict, o.Detail = "undecided", fmt.Sprint("analysis failed: ", x)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, s.Name, x, string(debug.Stack()))
				}
			}
		}
		o.Seconds = time.Since(t0).Seconds()
		if b != nil {
			o.States, o.Steps = b.E.States, b.E.Steps
			o.Acts = b.E.Activations()
			o.Functions, o.CallSites = len(b.E.FnSeen), len(b.E.CallSites)
			c.mu.Lock()
			for f := range b.E.FnSeen {
				c.Funcs[f.String()] = true
			}
			for in := range b.E.CallSites {
				c.Sites[b.E.Pos(in.Pos())+" "+in.String()] = true
			}
			for n := range b.E.Unmodelled {
				c.Assumed[n] = true
			}
			c.mu.Unlock()
		}
		c.Record(o)
	}()
	b = ai.NewB(p)
	b.Deep = s.Deep
	b.E.MaxStates = 150000
	if x, err := strconv.Atoi(os.Getenv("VERIF_STATES")); err == nil {
		b.E.MaxStates = x
	}
	if s.MaxStates > 0 {
		b.E.MaxStates = s.MaxStates
	}
	if s.Raw {
		b.E.Forget = false
		b.E.KeepErrState = true
	}
	limit := 60 * time.Second
	if c.Thorough {
		limit *= 4
	}
	if left := c.budget() + 60*time.Second - time.Since(c.start); limit > left {
		limit = left
	}
	b.E.Deadline = time.Now().Add(limit)
	fn, args := s.Build(b)
	if fn == nil {
		panic(ai.Missing{What: "entry point of " + s.Name})
	}
	top := b.E.Run(b.St, fn, args)
	if os.Getenv("VERIF_PROFILE") != "" {
		c.mu.Lock()
		fmt.Println("PROFILE", s.Name)
		for _, l := range b.E.Profile(12) {
			fmt.Println("   ", l)
		}
		if f := os.Getenv("VERIF_DUMP"); f != "" {
			for _, l := range b.E.Dump(f, 8) {
				fmt.Println(l)
			}
			for _, l := range append(b.E.VaryActs(f, 12), b.E.Vary(f, 12)...) {
				fmt.Println(l)
			}
		}
		c.mu.Unlock()
	}
	problems := b.E.SortedProblems()
	bad := 0
	seen := map[string]bool{}
	report := func(msg string, where string, tr []string) {
		if seen[msg+where] {
			return
		}
		seen[msg+where] = true
		bad++
		if bad <= 5 {
			c.Violate(s.Name, where, msg, tr...)
		}
	}
	nils := 0
	soft := ""
	for _, r := range top.Results {
		if k, isnil := r.ErrNil(); k && isnil {
			nils++
		}
		if s.Check == nil {
			continue
		}
		if m := s.Check(b, r); m != "" {
			if why := imprecise(b, r.St); why != "" {
				soft = why + " (" + m + ")"
				continue
			}
			report(m, p.PosString(fn.Pos()), b.E.TraceLines(r.St.Trace(), traceLen))
		}
	}
	if s.Out != nil {
		for _, x := range b.E.Outcomes {
			if m := s.Out(b, x); m != "" {
				if why := imprecise(b, x.St); why != "" {
					soft = why
					continue
				}
				tr := b.E.TraceLines(x.St.Trace(), 60)
				tr = append(tr, "call chain: "+b.E.CallChain(x.Act))
				at := x.Pos
				if !at.IsValid() && x.Fn != nil {
					at = x.Fn.Pos()
				}
				report(m, b.E.Pos(at), tr)
			}
		}
	}
	if s.Found != nil {
		for _, x := range problems {
			if !strings.HasSuffix(x, "limit exceeded") && !strings.Contains(x, "state limit of") {
				soft = x
			}
		}
		if m := s.Found(b); m != "" && soft == "" {
			report(m, p.PosString(fn.Pos()), nil)
		}
	}
	if s.Done != nil {
		if m := s.Done(b, top.Results); m != "" {
			if len(problems) > 0 {
				soft = problems[0]
			} else {
				report(m, p.PosString(fn.Pos()), nil)
			}
		}
	}
	switch {
	case bad > 0:
		o.Verdict = "violated"
	case len(problems) > 0:
		o.Verdict, o.Detail = "undecided", strings.Join(problems, "; ")
	case soft != "":
		o.Verdict, o.Detail = "undecided", soft
	case s.NeedNil && nils == 0:
		o.Verdict, o.Detail = "undecided", "no accepting path found"
	case len(top.Results) == 0 && len(b.E.Outcomes) == 0:
		o.Verdict, o.Detail = "undecided", "no path to an end of the entry point"
	}
}

// imprecise tells whether a state depends on something the analysis has no
// model of and which is not part of the reviewed set.
func imprecise(b *ai.B, st *ai.State) string {
	if st == nil {
		return ""
	}
	if st.Mon("exact") != "" {
		return ""
	}
	if x := st.Mon("unmodelled"); x != "" {
		return "depends on " + x + ", which has no model"
	}
	return ""
}

func rel(repo, p string) string {
	if r, err := filepath.Rel(repo, p); err == nil {
		return r
	}
	return p
}

// watchMemory stops the running analyses when the heap grows beyond the limit.
func watchMemory(done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 12<<30 {
			runtime.GC()
			runtime.ReadMemStats(&m)
		}
		if m.HeapAlloc > 12<<30 {
			ai.MemoryLow.Store(true)
			time.Sleep(time.Second)
			runtime.GC()
			ai.MemoryLow.Store(false)
		}
	}
}

var traceLen = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_TRACE")); err == nil {
		return n
	}
	return 80
}()
