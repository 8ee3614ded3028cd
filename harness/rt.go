package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------------------
// verdicts and evidence

type violation struct {
	Key     string      `json:"key"`
	What    string      `json:"what"`
	Witness interface{} `json:"witness,omitempty"`
}

type report struct {
	Violations   []violation            `json:"violations"`
	NViolations  int                    `json:"n_violations"`
	KnownSeen    []violation            `json:"known_seen"`
	Evaluations  int64                  `json:"evaluations"`
	Distinct     int64                  `json:"distinct"`
	Counters     map[string]int64       `json:"counters"`
	Rule         string                 `json:"rule"`
	Samples      []interface{}          `json:"samples"`
	Assumptions  []string               `json:"assumptions"`
	Inconclusive []string               `json:"inconclusive"`
	Extra        map[string]interface{} `json:"extra,omitempty"`
	Done         bool                   `json:"done"`
}

// Ctx is handed to a check. All methods are safe for concurrent use.
type Ctx struct {
	Prop string
	Tier string
	Seed int64
	R    *rand.Rand // only for the check's main goroutine
	Tmp  string

	mu       sync.Mutex
	rep      report
	distinct map[string]struct{}
	known    map[string]string
	out      string
}

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (c *Ctx) Rand(salt int64) *rand.Rand {
	return rand.New(rand.NewSource(c.Seed*1000003 + salt*7919 + int64(len(c.Prop))))
}

func (c *Ctx) Rule(s string)   { c.rep.Rule = s }
func (c *Ctx) Assume(s string) { c.rep.Assumptions = append(c.rep.Assumptions, s) }

// Eval counts one evaluated case; sig identifies it when it is non-trivial ("" otherwise).
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	c.rep.Evaluations++
	if sig != "" {
		c.distinct[sig] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.rep.Counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.rep.Counters[name]
}

func (c *Ctx) Sample(v interface{}) {
	// a short one is enough: evidence files are read as a whole
	if b, err := json.Marshal(v); err != nil {
		v = fmt.Sprintf("%.1000v", v)
	} else if len(b) > 3000 {
		v = strings.ToValidUTF8(string(b[:3000]), "?") + " ... (" + strconv.Itoa(len(b)) + " bytes)"
	}
	c.mu.Lock()
	if len(c.rep.Samples) < 4 {
		c.rep.Samples = append(c.rep.Samples, v)
	}
	c.mu.Unlock()
}

// Violate records a violation. key identifies the failing input, call site or history (for known findings).
func (c *Ctx) Violate(key, what string, witness interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, err := json.Marshal(witness); err != nil {
		witness = fmt.Sprintf("%+v", witness)
	}
	v := violation{Key: key, What: what, Witness: witness}
	if _, ok := c.known[key]; ok {
		for _, k := range c.rep.KnownSeen {
			if k.Key == key {
				return
			}
		}
		c.rep.KnownSeen = append(c.rep.KnownSeen, v)
		return
	}
	c.rep.NViolations++
	if len(c.rep.Violations) < 10 {
		c.rep.Violations = append(c.rep.Violations, v)
	}
}

// Stop tells a check to stop generating: enough violations were seen.
func (c *Ctx) Stop() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.rep.NViolations >= 5
}

func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.rep.NViolations > 0
}

// Need makes the run inconclusive when a counter stayed below min (the workload observed too little).
func (c *Ctx) Need(name string, min int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.rep.Counters[name] < min {
		c.rep.Inconclusive = append(c.rep.Inconclusive, fmt.Sprintf("observed %d %s, need %d", c.rep.Counters[name], name, min))
	}
}

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	c.rep.Inconclusive = append(c.rep.Inconclusive, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) save(done bool) {
	c.mu.Lock()
	c.rep.Distinct = int64(len(c.distinct))
	c.rep.Done = done
	b, err := json.Marshal(c.rep)
	c.mu.Unlock()
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	_ = os.Rename(c.out+".tmp", c.out)
}

type check struct {
	level string
	fn    func(*Ctx)
	// classify says whether a crash of the checked process is this property's business (always, by default)
}

var checks = map[string]check{}

func register(id, level string, fn func(*Ctx)) { checks[id] = check{level: level, fn: fn} }

// ---------------------------------------------------------------------------

func knownFindings(verif, prop string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return res
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			res[m[2]] = m[3]
		}
	}
	return res
}

func child(id, out, tier string, seed int64, verif, tmp string) {
	ck := checks[id]
	c := &Ctx{
		Prop: id, Tier: tier, Seed: seed, Tmp: tmp, out: out,
		distinct: map[string]struct{}{},
		known:    knownFindings(verif, id),
	}
	c.rep.Counters = map[string]int64{}
	c.R = c.Rand(0)
	quietLogs()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(refused); ok {
					c.Violate("sdk-refused", "the SDK refuses a valid query: "+string(s), nil)
					return
				}
				panic(r)
			}
		}()
		ck.fn(c)
	}()
	c.save(true)
	os.Exit(0)
}

// refused is thrown by the main goroutine of a check when the SDK refuses what it must accept.
type refused string

const repoPkg = "github.com/DaoCloud/ckube/"

var (
	reFatal   = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*)$`)
	reRaceSep = "WARNING: DATA RACE"
)

// crashInRepo reports whether a dying process's output shows code of the repository in the failing goroutine.
func crashInRepo(stderr string) (string, bool) {
	loc := reFatal.FindStringIndex(stderr)
	if loc == nil {
		return "", false
	}
	msg := stderr[loc[0]:loc[1]]
	rest := stderr[loc[0]:]
	if len(rest) > 1<<20 {
		rest = rest[:1<<20]
	}
	// the goroutine that failed is printed first
	blocks := strings.Split(rest, "\n\n")
	n := 0
	for _, b := range blocks {
		if strings.HasPrefix(b, "goroutine ") || strings.Contains(b, "\ngoroutine ") {
			n++
			if strings.Contains(b, repoPkg) {
				return msg, true
			}
			if n >= 1 && !strings.HasPrefix(msg, "fatal error: concurrent map") && !strings.HasPrefix(msg, "fatal error: all goroutines") {
				break
			}
		}
	}
	return msg, false
}

// raceReports splits race detector output and keeps those with a frame of the repository,
// deduplicated by their stacks with line numbers stripped.
func raceReports(text string) []string {
	var res []string
	seen := map[string]bool{}
	reLine := regexp.MustCompile(`:\d+ \+0x[0-9a-f]+|0x[0-9a-f]+|goroutine \d+|Goroutine \d+`)
	for i, blk := range strings.Split(text, reRaceSep) {
		if i == 0 {
			continue
		}
		if j := strings.Index(blk, "=================="); j >= 0 {
			blk = blk[:j]
		}
		if !strings.Contains(blk, repoPkg) {
			continue
		}
		k := reLine.ReplaceAllString(blk, "")
		if seen[k] {
			continue
		}
		seen[k] = true
		res = append(res, strings.TrimSpace(blk))
	}
	return res
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		seed, _ := strconv.ParseInt(os.Args[5], 10, 64)
		child(os.Args[2], os.Args[3], os.Args[4], seed, os.Args[6], os.Args[7])
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "-cold" {
		seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
		c22cold(seed)
		return
	}
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: vrun ID VERIFDIR")
		os.Exit(2)
	}
	os.Exit(parent(os.Args[1], os.Args[2]))
}

func parent(id, verif string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vrun-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "report.json")
	scratch := filepath.Join(tmp, "scratch")
	_ = os.MkdirAll(scratch, 0o755)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-child", id, out, tier, strconv.FormatInt(seed, 10), verif, scratch)
	errFile, _ := os.Create(filepath.Join(tmp, "stderr"))
	outFile, _ := os.Create(filepath.Join(tmp, "stdout"))
	cmd.Stderr = errFile
	cmd.Stdout = outFile
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 log_path="+filepath.Join(tmp, "race"), "GOTRACEBACK=all")
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		_ = cmd.Process.Kill()
		werr = <-done
	}
	stderr, _ := os.ReadFile(filepath.Join(tmp, "stderr"))
	stdout, _ := os.ReadFile(filepath.Join(tmp, "stdout"))
	rep := report{Counters: map[string]int64{}}
	if b, err := os.ReadFile(out); err == nil {
		_ = json.Unmarshal(b, &rep)
	}
	known := knownFindings(verif, id)
	add := func(v violation) {
		if _, ok := known[v.Key]; ok {
			rep.KnownSeen = append(rep.KnownSeen, v)
			return
		}
		rep.NViolations++
		rep.Violations = append(rep.Violations, v)
	}
	var inconclusive []string
	if !rep.Done {
		both := string(stderr) + "\n" + string(stdout)
		if msg, mine := crashInRepo(both); mine {
			i := strings.Index(both, msg)
			end := i + 6000
			if end > len(both) {
				end = len(both)
			}
			add(violation{Key: "crash", What: "the process running the repository's code died: " + msg, Witness: both[i:end]})
		} else if timedOut {
			inconclusive = append(inconclusive, "watchdog: the check did not finish")
		} else {
			inconclusive = append(inconclusive, fmt.Sprintf("check process ended early: %v: %s", werr, msg))
		}
	}
	inconclusive = append(inconclusive, rep.Inconclusive...)
	races := []string{}
	if fs, _ := filepath.Glob(filepath.Join(tmp, "race*")); len(fs) > 0 {
		var sb strings.Builder
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			sb.Write(b)
		}
		races = raceReports(sb.String())
		if n := strings.Count(sb.String(), reRaceSep); n > 0 {
			rep.Counters["race_reports_total"] = int64(n)
		}
	}
	for i, r := range races {
		if i >= 5 {
			break
		}
		if len(r) > 6000 {
			r = r[:6000]
		}
		add(violation{Key: "race", What: "data race in the repository's code", Witness: r})
	}
	wall := time.Since(start).Seconds()

	evdir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	cov := map[string]interface{}{
		"evaluations":         rep.Evaluations,
		"distinct_nontrivial": rep.Distinct,
		"rule":                rep.Rule,
		"samples":             rep.Samples,
	}
	if rep.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	names := []string{}
	for k := range rep.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	obs := map[string]int64{}
	for _, k := range names {
		obs[k] = rep.Counters[k]
	}
	cov["observed"] = obs
	for k, v := range rep.Extra {
		cov[k] = v
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	kf := []string{}
	for _, v := range rep.KnownSeen {
		kf = append(kf, v.Key)
	}
	if len(kf) > 0 {
		cov["known_findings_observed"] = kf
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       ck.level,
		"coverage":    cov,
		"assumptions": rep.Assumptions,
		"wall_s":      wall,
		"violations":  rep.NViolations,
	}
	if rep.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	writeJSON(filepath.Join(evdir, id+".json"), ev)

	for k, what := range known {
		seen := "not exercised or not observed in this run"
		for _, v := range rep.KnownSeen {
			if v.Key == k {
				seen = "observed"
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, what, seen)
	}
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d observed=%v wall=%.1fs\n", id, tier, seed, rep.Evaluations, rep.Distinct, obs, wall)
	if len(rep.Violations) > 0 {
		rp := filepath.Join(evdir, id+".violation.json")
		writeJSON(rp, map[string]interface{}{"property": id, "seed": seed, "tier": tier, "violations": rep.Violations, "rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s", seed, tier, id)})
		for _, v := range rep.Violations {
			fmt.Printf("  %s: %s\n", v.Key, v.What)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	_ = os.Remove(filepath.Join(evdir, id+".violation.json"))
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Println("INCONCLUSIVE:", s)
		}
		tail := stderr
		if len(tail) > 4000 {
			tail = tail[len(tail)-4000:]
		}
		_, _ = io.Copy(os.Stdout, bytes.NewReader(tail))
		fmt.Println()
		return 2
	}
	fmt.Printf("%s held on what was observed\n", id)
	return 0
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b, _ = json.MarshalIndent(fmt.Sprint(v), "", " ")
	}
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}
