// Package lib holds what the checks share: tiers, deadlines, sharding over processes, merging of
// results, known findings, replay artefacts and evidence files.
package lib

import (
	"bufio"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rs/zerolog"
	"kverif/vsched"
)

// Viol is a violation found by a shard.
type Viol struct {
	Sig    string          `json:"sig"`    // identifies the failing input, history or scenario
	What   string          `json:"what"`   // one line
	Replay json.RawMessage `json:"replay"` // enough to run it again
	Detail []string        `json:"detail,omitempty"`
}

// Part is the result of one shard.
type Part struct {
	Traces     int64            `json:"traces"`    // complete executions compared with the oracle
	Ops        int64            `json:"ops"`       // operations / scheduling steps executed
	Scenarios  map[string]int64 `json:"scenarios"` // executions per scenario
	Outcomes   map[string]int64 `json:"outcomes"`  // distinct observable results (capped)
	Samples    []string         `json:"samples"`
	Viols      []Viol           `json:"viols"`
	Unconf     []string         `json:"unconfirmed"`
	Caps       []string         `json:"caps"`
	Extra      map[string]int64 `json:"extra"`
	Bounds     map[string]any   `json:"bounds"`
	statesHash map[uint64]struct{}
}

func NewPart() *Part {
	return &Part{Scenarios: map[string]int64{}, Outcomes: map[string]int64{}, Extra: map[string]int64{}, statesHash: map[uint64]struct{}{}}
}

// State counts a distinct state of the implementation/model pair.
func (p *Part) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	p.statesHash[h.Sum64()] = struct{}{}
}

// StateHash counts a distinct state by hash.
func (p *Part) StateHash(h uint64) { p.statesHash[h] = struct{}{} }

// Outcome counts an observable outcome.
func (p *Part) Outcome(s string) {
	if _, ok := p.Outcomes[s]; !ok && len(p.Outcomes) >= 5000 {
		p.Extra["outcomes_beyond_cap"]++
		return
	}
	p.Outcomes[s]++
}

// Sample keeps a few written-out cases.
func (p *Part) Sample(f string, a ...any) {
	if len(p.Samples) < 4 {
		p.Samples = append(p.Samples, fmt.Sprintf(f, a...))
	}
}

// Cap reports that something was not fully enumerated.
func (p *Part) Cap(s string) {
	for _, c := range p.Caps {
		if c == s {
			return
		}
	}
	p.Caps = append(p.Caps, s)
}

// Fail records a violation.
func (p *Part) Fail(sig, what string, replay any, detail ...string) {
	for _, v := range p.Viols {
		if v.Sig == sig {
			return
		}
	}
	if len(p.Viols) >= 50 {
		return
	}
	b, _ := json.Marshal(replay)
	p.Viols = append(p.Viols, Viol{Sig: sig, What: what, Replay: b, Detail: detail})
}

// Sure runs a failing case again: n more failures make it certain, otherwise it is noted as
// unconfirmed and not reported.
func (p *Part) Sure(n int, what string, again func() string) bool {
	for i := 0; i < n; i++ {
		if again() == "" {
			p.Unconf = append(p.Unconf, what)
			return false
		}
	}
	return true
}

// Check is one run of a check.
type Check struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Shard    int
	Of       int
	Thorough bool
	Start    time.Time
	Deadline time.Time // exploration must stop by then
	Assume   []string
	Rule     string
	Replay   json.RawMessage // set when replaying an artefact
	p        *Part
	extra    map[string]any
}

var (
	fShard  = flag.Int("shard", -1, "")
	fOf     = flag.Int("of", 1, "")
	fOut    = flag.String("part", "", "")
	fReplay = flag.String("replay", "", "replay artefact")
	fProcs  = flag.Int("procs", 0, "")
	fRace   = flag.Bool("racepass", false, "")
)

// RacePass reports whether this process is the race-detector pass.
func RacePass() bool { return *fRace }

// Root returns /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Main runs a check. work explores shard c.Shard of c.Of and records into p.
func Main(id string, budgetQuick, budgetThorough time.Duration, work func(c *Check, p *Part)) {
	flag.Parse()
	zerolog.SetGlobalLevel(zerolog.Disabled)
	c := &Check{ID: id, Tier: os.Getenv("VERIF_TIER"), Level: "model_checking", Start: time.Now(), extra: map[string]any{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	b := budgetQuick
	if c.Thorough {
		b = budgetThorough
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			b = d
		}
	}
	c.Deadline = c.Start.Add(b)
	if *fReplay != "" {
		buf, err := os.ReadFile(*fReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var art struct {
			Replay json.RawMessage `json:"replay"`
		}
		_ = json.Unmarshal(buf, &art)
		c.Replay = art.Replay
		c.Of = 1
		p := NewPart()
		work(c, p)
		for _, v := range p.Viols {
			fmt.Printf("REPLAYED %s: %s\n", v.Sig, v.What)
			for _, d := range v.Detail {
				fmt.Println("   ", d)
			}
		}
		if len(p.Viols) > 0 {
			os.Exit(1)
		}
		fmt.Println("replay: no violation")
		return
	}
	if *fShard >= 0 {
		runtime.GOMAXPROCS(1)
		if v := os.Getenv("KV_GOMAXPROCS"); v != "" {
			if n, err := strconv.Atoi(v); err == nil {
				runtime.GOMAXPROCS(n)
			}
		}
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(2 << 30)
		if pf := os.Getenv("KV_PROFILE"); pf != "" && *fShard == 0 {
			if f, err := os.Create(pf); err == nil {
				pprof.StartCPUProfile(f)
				defer pprof.StopCPUProfile()
			}
		}
		c.Shard, c.Of = *fShard, *fOf
		p := NewPart()
		go watch(*fOut)
		work(c, p)
		Idle()
		p.write(*fOut)
		pprof.StopCPUProfile()
		os.Exit(0)
	}
	c.parent()
}

func (p *Part) write(path string) {
	p.Bounds = Bounds
	b, err := json.Marshal(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f, _ := os.Create(path + ".st")
	w := bufio.NewWriter(f)
	var buf [8]byte
	for h := range p.statesHash {
		binary.LittleEndian.PutUint64(buf[:], h)
		w.Write(buf[:])
	}
	w.Flush()
	f.Close()
}

type known struct {
	Property string   `json:"property"`
	What     string   `json:"what"`
	Sigs     []string `json:"sigs"`
	Status   string   `json:"status"`
}

func loadKnown(id string) (ks []known) {
	b, err := os.ReadFile(filepath.Join(Root(), "known_findings.json"))
	if err != nil {
		return
	}
	var all struct {
		Known []known `json:"known"`
	}
	if json.Unmarshal(b, &all) != nil {
		return
	}
	for _, k := range all.Known {
		if k.Property == id && k.Status == "known" {
			ks = append(ks, k)
		}
	}
	return
}

func (c *Check) parent() {
	procs := *fProcs
	if procs == 0 {
		procs = runtime.NumCPU()
		if procs > 8 {
			procs = 8
		}
		if v := os.Getenv("KV_PROCS"); v != "" {
			procs, _ = strconv.Atoi(v)
		}
	}
	tmp, err := os.MkdirTemp("", "kv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	type job struct {
		args []string
		out  string
	}
	var jobs []job
	for i := 0; i < procs; i++ {
		out := filepath.Join(tmp, fmt.Sprintf("p%d", i))
		jobs = append(jobs, job{[]string{os.Args[0], "-shard", fmt.Sprint(i), "-of", fmt.Sprint(procs), "-part", out}, out})
	}
	if r := os.Getenv("KV_RACE"); r != "" {
		out := filepath.Join(tmp, "race")
		jobs = append(jobs, job{[]string{r, "-shard", "0", "-of", "1", "-racepass", "-part", out}, out})
	}
	m := NewPart()
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			cmd := exec.Command(j.args[0], j.args[1:]...)
			errf, _ := os.Create(j.out + ".err")
			cmd.Stderr = errf
			cmd.Stdout = errf
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+j.out+".racelog", "KV_RACELOG="+j.out+".racelog")
			if err := cmd.Start(); err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()
				return
			}
			var late atomic.Bool
			kill := time.AfterFunc(time.Until(c.Deadline)+120*time.Second, func() { late.Store(true); cmd.Process.Kill() })
			err := cmd.Wait()
			kill.Stop()
			errf.Close()
			mu.Lock()
			defer mu.Unlock()
			tail := ""
			if b, e := os.ReadFile(j.out + ".err"); e == nil && len(b) > 0 {
				if len(b) > 6000 {
					b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
				}
				tail = string(b)
			}
			b, e := os.ReadFile(j.out)
			if e != nil && late.Load() {
				cur, _ := os.ReadFile(j.out + ".cur")
				m.Cap(fmt.Sprintf("shard %v was stopped long after its time was up: %s", j.args[1:3], cur))
				return
			}
			if e != nil {
				// The process died: a crash that takes the whole process down (fatal error, unrecovered
				// panic in a goroutine of the code under test) is reported with what it was doing.
				cur, _ := os.ReadFile(j.out + ".cur")
				bad = fmt.Sprintf("shard %v died: %v\n%s\ncase: %s", j.args[1:3], err, tail, cur)
				if crash := strings.Contains(tail, "panic:") || strings.Contains(tail, "fatal error:"); crash && len(cur) > 0 {
					line := tail
					if i := strings.Index(line, "panic:"); i >= 0 {
						line = line[i:]
					} else if i := strings.Index(line, "fatal error:"); i >= 0 {
						line = line[i:]
					}
					if i := strings.IndexByte(line, '\n'); i >= 0 {
						line = line[:i]
					}
					m.Viols = append(m.Viols, Viol{Sig: "crash:" + string(cur), What: "process crash: " + line, Replay: json.RawMessage(strconv.Quote(string(cur))), Detail: strings.Split(tail, "\n")})
				}
				return
			}
			p := NewPart()
			if e := json.Unmarshal(b, p); e != nil {
				bad = e.Error()
				return
			}
			if sb, e := os.ReadFile(j.out + ".st"); e == nil {
				for i := 0; i+8 <= len(sb); i += 8 {
					m.statesHash[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
				}
			}
			m.merge(p)
			if os.Getenv("KV_VERBOSE") != "" && tail != "" {
				fmt.Fprintln(os.Stderr, tail)
			}
		}(j)
	}
	wg.Wait()
	c.p = m
	if bad != "" && len(m.Viols) == 0 {
		fmt.Fprintln(os.Stderr, "check error:", bad)
		c.evidence(0, nil)
		os.Exit(2)
	}
	c.report()
}

// Doing records what the shard is executing, so that a crash of the process can be attributed.
func Doing(s string) {
	if *fOut == "" {
		return
	}
	_ = os.WriteFile(*fOut+".cur", []byte(s), 0o644)
}

// A case the code under test does not come back from (an endless loop, a call that is never answered)
// would keep the shard busy until it is killed. Case marks the start of one; it is over with the next
// Case or Idle.
var (
	caseN   atomic.Int64
	caseCur atomic.Pointer[func() string]
)

// Case marks the start of one case of an enumeration that takes some milliseconds.
func Case(desc func() string) { caseCur.Store(&desc); caseN.Add(1) }

// Idle says that no case is running.
func Idle() { caseCur.Store(nil); caseN.Add(1) }

func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch ends the shard with a finding when one case has used up 25 s of processor time, has grown
// the heap by 3 GB, or has done nothing at all for 60 s in which this process was running.
func watch(out string) {
	last, ticks := int64(-1), 0
	var c0 time.Duration
	var h0 uint64
	for {
		time.Sleep(time.Second)
		n, d := caseN.Load(), caseCur.Load()
		if n != last || d == nil {
			last, ticks, c0, h0 = n, 0, cpu(), heap()
			continue
		}
		ticks++
		used, grown := cpu()-c0, int64(heap())-int64(h0)
		why := ""
		switch {
		case used >= 25*time.Second:
			why = "does not end: it has used 25 s of processor time"
		case grown > 3<<30:
			why = "does not end: it has taken 3 GB of memory"
		case ticks >= 60 && used < 2*time.Second:
			why = "does not end: nothing has happened for 60 s"
		default:
			continue
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		q := NewPart()
		q.Traces, q.Ops = 1, 1
		what := (*d)()
		q.Fail("hang: "+what, "the case "+why+": "+what, what, strings.Split(string(buf), "\n")...)
		q.Cap("shard ended by a case that does not end")
		q.write(out)
		os.Exit(0)
	}
}

func (m *Part) merge(p *Part) {
	m.Traces += p.Traces
	m.Ops += p.Ops
	for k, v := range p.Scenarios {
		m.Scenarios[k] += v
	}
	for k, v := range p.Outcomes {
		m.Outcomes[k] += v
	}
	for k, v := range p.Extra {
		m.Extra[k] += v
	}
	for _, s := range p.Samples {
		if len(m.Samples) < 8 {
			m.Samples = append(m.Samples, s)
		}
	}
	m.Viols = append(m.Viols, p.Viols...)
	m.Unconf = append(m.Unconf, p.Unconf...)
	for _, s := range p.Caps {
		m.Cap(s)
	}
	for k, v := range p.Bounds {
		Bounds[k] = v
	}
}

func (c *Check) report() {
	m := c.p
	sort.SliceStable(m.Viols, func(i, j int) bool { return len(m.Viols[i].Replay) < len(m.Viols[j].Replay) })
	ks := loadKnown(c.ID)
	hit := map[int]bool{}
	var fresh []Viol
	for _, v := range m.Viols {
		isKnown := false
		for i, k := range ks {
			for _, s := range k.Sigs {
				if s == v.Sig {
					isKnown = true
					hit[i] = true
				}
			}
		}
		if !isKnown {
			dup := false
			for _, f := range fresh {
				if f.Sig == v.Sig {
					dup = true
				}
			}
			if !dup {
				fresh = append(fresh, v)
			}
		}
	}
	for i, k := range ks {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
		}
	}
	c.evidence(len(fresh), ks)
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s tier=%s traces=%d ops=%d states=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
			c.ID, c.Tier, m.Traces, m.Ops, len(m.statesHash), len(m.Outcomes), len(m.Caps) == 0, time.Since(c.Start).Seconds())
		for _, s := range m.Caps {
			fmt.Println("  cap:", s)
		}
		for _, s := range m.Unconf {
			fmt.Println("  unconfirmed (not reported):", s)
		}
		return
	}
	dir := filepath.Join(Root(), "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range fresh {
		if i == 5 {
			fmt.Printf("  ... and %d more\n", len(fresh)-5)
			break
		}
		h := sha1.Sum([]byte(v.Sig))
		path := filepath.Join(dir, c.ID+"-"+hex.EncodeToString(h[:4])+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "sig": v.Sig, "what": v.What, "replay": v.Replay,
			"detail": v.Detail, "how": "/verif/check.sh " + c.ID + " -replay " + path}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  %s: %s\n", v.Sig, v.What)
		for j, d := range v.Detail {
			if j == 40 {
				fmt.Println("    ...")
				break
			}
			fmt.Println("    " + d)
		}
	}
	os.Exit(1)
}

// Note adds a field to the evidence.
func (c *Check) Note(k string, v any) { c.extra[k] = v }

var (
	// Assumptions and Bounds are written to the evidence file.
	Assumptions []string
	Bounds      = map[string]any{}
	Alphabet    string
)

func (c *Check) evidence(viol int, ks []known) {
	m := c.p
	if m == nil {
		m = NewPart()
	}
	samples := m.Samples
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	type kv struct {
		k string
		v int64
	}
	var oc []kv
	for k, v := range m.Outcomes {
		oc = append(oc, kv{k, v})
	}
	sort.Slice(oc, func(i, j int) bool { return oc[i].v > oc[j].v || oc[i].v == oc[j].v && oc[i].k < oc[j].k })
	ocs := []string{}
	for i, o := range oc {
		if i == 25 {
			break
		}
		k := o.k
		if len(k) > 160 {
			k = k[:160] + "..."
		}
		ocs = append(ocs, fmt.Sprintf("%d x %s", o.v, k))
	}
	cov := map[string]any{
		"states":                        len(m.statesHash),
		"transitions":                   m.Ops,
		"traces_validated_against_impl": m.Traces,
		"samples":                       samples,
		"exhaustive":                    len(m.Caps) == 0,
		"distinct_outcomes":             len(m.Outcomes),
		"outcomes_most_frequent":        ocs,
		"executions_per_scenario":       m.Scenarios,
		"caps_hit":                      m.Caps,
		"unconfirmed_alarms":            m.Unconf,
		"bounds":                        Bounds,
		"alphabet":                      Alphabet,
		"meaning":                       "every execution runs the real code; states = distinct (implementation, reference-model) or scheduler control states reached, transitions = operations or scheduling steps executed, traces = complete executions each compared with the oracle",
	}
	if len(m.Extra) > 0 {
		cov["counters"] = m.Extra
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": append([]string{}, Assumptions...), "wall_s": time.Since(c.Start).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(Root(), "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

// Expired reports whether the exploration budget is used up; it records the cap.
func (c *Check) Expired(p *Part, where string) bool {
	if time.Now().After(c.Deadline) {
		p.Cap("time budget used up in " + where)
		return true
	}
	return false
}

// Scenario is a concurrent harness explored by package vsched.
type Scenario struct {
	Name  string
	Cfg   vsched.Config
	Plain bool // statement-level scheduling points
	Race  bool // also run (bound 1) in the race pass
	Body  func(x *vsched.X)
}

type schedReplay struct {
	Scenario string `json:"scenario"`
	Choices  []int  `json:"choices"`
}

// RunScenarios explores every scenario (this process's shard of it).
func (c *Check) RunScenarios(p *Part, scs []Scenario) {
	if c.Replay != nil {
		var r schedReplay
		_ = json.Unmarshal(c.Replay, &r)
		for _, sc := range scs {
			if sc.Name == r.Scenario {
				vsched.PlainPoints = sc.Plain
				st := vsched.Replay(sc.Cfg, r.Choices, sc.Body)
				if st.Violation != "" {
					p.Fail("sched:"+sc.Name, st.Violation, r, st.Trace...)
				}
			}
		}
		return
	}
	n := len(scs)
	for i, sc := range scs {
		if vsched.RaceMode && !sc.Race {
			continue
		}
		Doing("scenario " + sc.Name)
		cfg := sc.Cfg
		cfg.Shard, cfg.Of = c.Shard, c.Of
		left := time.Until(c.Deadline)
		// every remaining scenario gets a share of what is left, at least
		share := left / time.Duration(n-i)
		if share < 0 {
			share = 0
		}
		cfg.Deadline = time.Now().Add(share)
		vsched.PlainPoints = sc.Plain
		if vsched.RaceMode {
			cfg.Bound = 1
			cfg.Shard, cfg.Of = 0, 1
			if cfg.MaxExecs == 0 || cfg.MaxExecs > 3000 {
				cfg.MaxExecs = 3000
			}
		}
		st := vsched.Explore(cfg, func(x *vsched.X) {
			Case(func() string { return "scenario " + sc.Name })
			sc.Body(x)
		})
		Idle()
		p.Traces += st.Execs
		p.Ops += st.Steps
		name := sc.Name
		if vsched.RaceMode {
			name = "race-pass/" + name
		}
		p.Scenarios[name] += st.Execs
		hs := fnv.New64a()
		hs.Write([]byte(name))
		mixv := hs.Sum64()
		st.EachState(func(h uint64) { p.StateHash(h*31 ^ mixv) })
		for o, k := range st.Outcomes {
			if o != "" {
				for j := int64(0); j < 1; j++ {
					p.Outcome(sc.Name + ": " + o)
				}
				p.Outcomes[sc.Name+": "+o] += k - 1
			}
		}
		if !st.Exhausted && st.Violation == "" && !vsched.RaceMode {
			p.Cap(fmt.Sprintf("%s (bound %d): %s", sc.Name, cfg.Bound, st.Cap))
		}
		if st.Violation != "" {
			// The same decisions must fail every time before this is believed.
			ok := true
			if !strings.Contains(st.Violation, "data race") {
				for k := 0; k < 5; k++ {
					r := vsched.Replay(sc.Cfg, st.Choices, sc.Body)
					if r.Violation == "" {
						ok = false
					}
				}
			}
			first := st.Violation
			if j := strings.IndexByte(first, '\n'); j > 0 {
				first = first[:j]
			}
			if !ok {
				p.Unconf = append(p.Unconf, sc.Name+": "+first)
			} else {
				det := append([]string{}, strings.Split(st.Violation, "\n")...)
				if len(det) > 30 {
					det = det[:30]
				}
				det = append(det, "schedule (thread, operation, place):")
				det = append(det, st.Trace...)
				p.Fail("sched:"+sc.Name, first, schedReplay{sc.Name, st.Choices}, det...)
			}
		}
		if c.Shard == 0 && !vsched.RaceMode {
			p.Sample("scenario %s: %d executions in this shard, %d scheduling steps, up to %d threads, per deviation count %v", sc.Name, st.Execs, st.Steps, st.MaxThreads, st.PerBound)
		}
	}
}

// Seqs enumerates all sequences over [0,n) of exactly the given length (prefixes are covered by
// checking every step) belonging to this shard; stop early when f returns false.
func (c *Check) Seqs(n, depth int, f func(seq []int) bool) {
	seq := make([]int, depth)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	// contiguous interleaving by the leading digits keeps shards balanced
	for k := 0; k < total; k++ {
		if k%c.Of != c.Shard {
			continue
		}
		v := k
		for i := depth - 1; i >= 0; i-- {
			seq[i] = v % n
			v /= n
		}
		Case(func() string { return fmt.Sprint("sequence ", seq) })
		ok := f(seq)
		Idle()
		if !ok {
			return
		}
	}
}
