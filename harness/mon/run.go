package mon

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Violation is one observed refutation of a property.
type Violation struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Data     []byte `json:"data"`
	Sig      string `json:"sig"`
	Detail   string `json:"detail"`
	Text     string `json:"text,omitempty"`
}

// Result is what one worker observed.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Keys        []uint64         `json:"keys"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Stopped     bool             `json:"stopped"`
	keys        map[uint64]struct{}
	known       map[string]string
	unknown     int
}

func newResult(known map[string]string) *Result {
	return &Result{Counters: map[string]int64{}, keys: map[uint64]struct{}{}, known: known}
}

func (r *Result) add(v Violation) {
	for _, o := range r.Violations {
		if showAll && o.Sig == v.Sig {
			return
		}
		if o.Sig == v.Sig && r.known[caseID(o)] != "" && caseID(o) == caseID(v) {
			return
		}
	}
	if len(r.Violations) < 200 {
		r.Violations = append(r.Violations, v)
	}
	if r.known[caseID(v)] == "" {
		r.unknown++
	}
}

// caseID identifies the specific failing case and failure.
func caseID(v Violation) string {
	return v.Property + "|" + v.Kind + "|" + base64.StdEncoding.EncodeToString(v.Data) + "|" + v.Sig
}

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Kind     string `json:"kind,omitempty"`
	Data     []byte `json:"data,omitempty"`
	Sig      string `json:"sig,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []Known `json:"findings"`
}

func loadKnown(root string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return m
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	for _, e := range k.Findings {
		if e.Status == "known" {
			m[caseID(Violation{Property: e.Property, Kind: e.Kind, Data: e.Data, Sig: e.Sig})] = e.What
		}
	}
	return m
}

const shmSize = 1 << 20

// current-case area: [0:8] sequence, [8:16] kind length, [16:24] data length, then bytes
type shm struct{ b []byte }

func openShm(path string) (*shm, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(shmSize); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &shm{b}, nil
}

func (s *shm) set(kind string, data []byte) {
	if len(data) > shmSize-1024 {
		data = data[:shmSize-1024]
	}
	binary.LittleEndian.PutUint64(s.b[8:], uint64(len(kind)))
	binary.LittleEndian.PutUint64(s.b[16:], uint64(len(data)))
	copy(s.b[24:], kind)
	copy(s.b[24+len(kind):], data)
	binary.LittleEndian.PutUint64(s.b[0:], binary.LittleEndian.Uint64(s.b[0:])+1)
}
func (s *shm) seq() uint64 { return binary.LittleEndian.Uint64(s.b[0:]) }
func (s *shm) get() (string, []byte) {
	k := binary.LittleEndian.Uint64(s.b[8:])
	d := binary.LittleEndian.Uint64(s.b[16:])
	if k > 1000 || d > shmSize-1024 {
		return "?", nil
	}
	return string(s.b[24 : 24+k]), append([]byte(nil), s.b[24+k:24+k+d]...)
}

func runCase(p *Prop, res *Result, tier, kind string, data []byte) (c *C) {
	c = &C{Prop: p, Kind: kind, Data: data, Tier: tier, res: res}
	h := p.Handlers[kind]
	if h == nil {
		panic("no handler for kind " + kind + " of " + p.ID)
	}
	res.Evaluations++
	c.Guard(kind, func() { h(c, data) })
	return c
}

// Worker executes one shard and prints its result as JSON on stdout.
func Worker(id, tier string, seed uint64, shard, shards int, shmPath, outPath, root string) int {
	p := Get(id)
	s, err := openShm(shmPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	debug.SetMaxStack(256 << 20)
	res := newResult(loadKnown(root))
	pl := &Plan{Tier: tier, Seed: seed, more: p.Quick, Shard: shard, Shards: shards}
	pl.exec = func(kind string, data []byte) bool {
		s.set(kind, data)
		runCase(p, res, tier, kind, data)
		return res.unknown < 5 || showAll
	}
	p.Plan(pl)
	s.set("end", nil)
	res.Stopped = pl.stopped
	for k := range res.keys {
		res.Keys = append(res.Keys, k)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(outPath, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func procCPU(pid int) (float64, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0, 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + st) / 100, rss * 4096
}

// Limits of one case: far beyond anything a terminating case needs.
const (
	cpuLimit = 20.0    // seconds of CPU time of the worker without finishing the case
	rssLimit = 3 << 30 // bytes
)

type shardOut struct {
	res  *Result
	viol *Violation
	err  string
}

func lastLines(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runShard(self, id, tier string, seed uint64, shard, shards int, dir, root string, cancel <-chan struct{}) shardOut {
	shmPath := filepath.Join(dir, fmt.Sprintf("cur%d", shard))
	outPath := filepath.Join(dir, fmt.Sprintf("out%d", shard))
	errPath := filepath.Join(dir, fmt.Sprintf("err%d", shard))
	s, err := openShm(shmPath)
	if err != nil {
		return shardOut{err: err.Error()}
	}
	ef, _ := os.Create(errPath)
	defer ef.Close()
	cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(shards), shmPath, outPath, root)
	cmd.Stderr = ef
	cmd.Stdout = ef
	procs := runtime.NumCPU() / shards
	if procs < 1 {
		procs = 1
	}
	if Get(id).Race {
		procs = 4
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return shardOut{err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	var lastSeq uint64
	var cpuAt float64
	reason := ""
	cancelled := false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-cancel:
			cancelled = true
			cmd.Process.Kill()
			werr = <-done
			break loop
		case <-tick.C:
			cpu, rss := procCPU(cmd.Process.Pid)
			if q := s.seq(); q != lastSeq {
				lastSeq, cpuAt = q, cpu
			} else if cpu-cpuAt > cpuLimit*map[bool]float64{false: 1, true: 4}[Get(id).Race] {
				reason = fmt.Sprintf("did not terminate: %.0f s of CPU time spent on one case", cpu-cpuAt)
			}
			if rss > rssLimit {
				reason = fmt.Sprintf("unbounded memory: %d MB in use while running one case", rss>>20)
			}
			if reason != "" {
				cmd.Process.Kill()
				werr = <-done
				break loop
			}
		}
	}
	kind, data := s.get()
	if cancelled {
		return shardOut{}
	}
	if reason != "" {
		return shardOut{viol: &Violation{Property: id, Kind: kind, Data: data, Sig: "no-termination", Detail: reason}}
	}
	if werr != nil {
		eb, _ := os.ReadFile(errPath)
		txt := string(eb)
		if kind == "end" || kind == "?" || kind == "" {
			return shardOut{err: fmt.Sprintf("worker failed: %v\n%s", werr, lastLines(txt, 3000))}
		}
		sig := "fatal"
		if strings.Contains(txt, "DATA RACE") {
			sig = "data-race"
		} else if strings.Contains(txt, "stack overflow") {
			sig = "stack-overflow"
		} else if strings.Contains(txt, "checkptr") {
			sig = "checkptr"
		}
		return shardOut{viol: &Violation{Property: id, Kind: kind, Data: data, Sig: sig, Detail: fmt.Sprintf("worker died: %v\n%s", werr, lastLines(txt, 6000))}}
	}
	b, err := os.ReadFile(outPath)
	if err != nil {
		return shardOut{err: err.Error()}
	}
	r := &Result{}
	if err := json.Unmarshal(b, r); err != nil {
		return shardOut{err: err.Error()}
	}
	return shardOut{res: r}
}

// showAll (for development) keeps going after violations and shows one of
// every kind of failure.
var showAll = os.Getenv("VMON_ALL") != ""

// Main runs a property and returns the exit code of the check.
func Main(root, id, tier string, seed uint64) int {
	t0 := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	self, _ := os.Executable()
	dir, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	shards := p.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
		if p.Race {
			shards = (shards + 1) / 2
		}
	}
	if n, _ := strconv.Atoi(os.Getenv("VMON_SHARDS")); n > 0 { // for development
		shards = n
	}
	if p.OneProc {
		shards = 1 << 20 // replaced below
	}
	known := loadKnown(root)
	var outs []shardOut
	cancel := make(chan struct{})
	var once sync.Once
	isNew := func(o shardOut) bool {
		if showAll {
			return false
		}
		if o.viol != nil && known[caseID(*o.viol)] == "" {
			return true
		}
		if o.res != nil {
			for _, v := range o.res.Violations {
				if known[caseID(v)] == "" {
					return true
				}
			}
		}
		return false
	}
	if p.OneProc {
		// count cases, then one process each, a few at a time
		n := 0
		pl := &Plan{Tier: tier, Seed: seed, more: p.Quick, exec: func(string, []byte) bool { n++; return true }}
		p.Plan(pl)
		outs = make([]shardOut, n)
		sem := make(chan struct{}, 3)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			sem <- struct{}{}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { <-sem }()
				select {
				case <-cancel:
					return
				default:
				}
				outs[i] = runShard(self, id, tier, seed, i, n, dir, root, cancel)
				if isNew(outs[i]) {
					once.Do(func() { close(cancel) })
				}
			}(i)
		}
		wg.Wait()
		shards = n
	} else {
		outs = make([]shardOut, shards)
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i] = runShard(self, id, tier, seed, i, shards, dir, root, cancel)
				if isNew(outs[i]) {
					once.Do(func() { close(cancel) })
				}
			}(i)
		}
		wg.Wait()
	}
	total := newResult(known)
	var viols []Violation
	for i, o := range outs {
		if o.err != "" {
			fmt.Fprintf(os.Stderr, "shard %d: %s\n", i, o.err)
			return 3
		}
		if o.viol != nil {
			viols = append(viols, *o.viol)
		}
		if o.res != nil {
			total.Evaluations += o.res.Evaluations
			for _, k := range o.res.Keys {
				total.keys[k] = struct{}{}
			}
			for k, n := range o.res.Counters {
				total.Counters[k] += n
			}
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, o.res.Samples...)
			}
			viols = append(viols, o.res.Violations...)
		}
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	var fresh []Violation
	seenKnown := map[string]bool{}
	for _, v := range viols {
		if w := known[caseID(v)]; w != "" {
			if !seenKnown[w] {
				seenKnown[w] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return len(fresh[i].Data) < len(fresh[j].Data) })
	// what was observed must be something
	inconclusive := ""
	if len(fresh) == 0 {
		for _, k := range p.MinEvents {
			if total.Counters[k] == 0 {
				inconclusive = "nothing observed for " + k
			}
		}
		if total.Evaluations == 0 || len(total.keys) < 2 {
			inconclusive = "nothing observed"
		}
	}
	counters := map[string]int64{}
	for k, v := range total.Counters {
		if len(counters) >= 500 {
			k = "others" // keep the evidence file readable
		}
		counters[k] += v
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(total.keys),
		"rule":                p.Rule,
		"samples":             total.Samples,
		"observed":            counters,
		"worker_processes":    shards,
	}
	if p.Race {
		cov["race_detector"] = true
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assume,
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if total.Samples == nil {
		cov["samples"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if len(fresh) > 0 {
		shown, sigs := 0, map[string]bool{}
		for _, v := range fresh {
			if sigs[v.Sig] {
				continue
			}
			sigs[v.Sig] = true
			if shown++; shown > 3 && !showAll {
				break
			}
			path := writeReplay(root, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  kind=%s sig=%s\n  input=%s\n  %s\n", v.Kind, v.Sig, clip(strconv.Quote(string(v.Data)), 1500), strings.ReplaceAll(clip(v.Detail, 2500), "\n", "\n  "))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Fprintln(os.Stderr, "inconclusive:", inconclusive)
		return 3
	}
	fmt.Printf("ok property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", id, tier, total.Evaluations, len(total.keys), time.Since(t0).Seconds())
	return 0
}

func writeReplay(root string, v Violation) string {
	d := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(d, 0o755)
	h := fnv.New64a()
	h.Write([]byte(caseID(v)))
	path := filepath.Join(d, fmt.Sprintf("%s-%016x.json", v.Property, h.Sum64()))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// Replay runs the single case of a replay file in this process.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return One(v.Property, v.Kind, v.Data, path)
}

// One runs one case in this process and prints what it observed.
func One(id, kind string, data []byte, path string) int {
	p := Get(id)
	res := newResult(nil)
	runCase(p, res, "quick", kind, data)
	for _, s := range res.Samples {
		fmt.Println("sample:", s)
	}
	for _, x := range res.Violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n  sig=%s\n  %s\n", id, path, x.Sig, x.Detail)
	}
	if len(res.Violations) > 0 {
		return 1
	}
	fmt.Println("held on this case")
	return 0
}
