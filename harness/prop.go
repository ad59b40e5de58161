package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// R is the outcome of one case.
type R struct {
	Bad     string   // not empty: the property is violated, and how
	Live    bool     // the violation rests on a time-out: it must show up twice
	Skip    string   // inconclusive
	Nontriv bool     // by the check's rule
	Labels  []string // classes the case belongs to
	Known   []string // signatures of known findings seen
}

func bad(f string, a ...any) R  { return R{Bad: fmt.Sprintf(f, a...)} }
func live(f string, a ...any) R { return R{Bad: fmt.Sprintf(f, a...), Live: true} }

// badErr: a harness helper failed against the server.
func badErr(what string, err error) R {
	if e, ok := err.(errCrash); ok {
		return R{Bad: what + ": " + e.msg}
	}
	return R{Bad: what + ": " + err.Error(), Live: true}
}

type Check struct {
	ID       string
	Rule     string
	Quick    int // cases, all shards together
	Thorough int
	Gen      func(t *rapid.T) any
	New      func() any
	Run      func(x *X, c any) R
	Assume   []string
	MaxSh    int  // at most so many shards (0: 8)
	Alt      bool // alternate between vh and vh-alt
	InProc   bool // no server needed
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var knownSigs = map[string]map[string]string{}

func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var p, s string
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				p = w[9:]
			}
			if strings.HasPrefix(w, "signature=") {
				s = w[10:]
			}
		}
		if p != "" && s != "" {
			if knownSigs[p] == nil {
				knownSigs[p] = map[string]string{}
			}
			knownSigs[p][s] = l
		}
	}
}

func isKnown(prop, sig string) bool { _, ok := knownSigs[prop][sig]; return ok }

// --- shard ----------------------------------------------------------------------------------

type ShardOut struct {
	Evals    int
	Nontriv  []string // hashes
	Labels   map[string]int
	Samples  []json.RawMessage
	Skips    map[string]int
	Known    map[string]int
	Bad      string
	BadCase  json.RawMessage
	Seed     uint64
	Finished bool
	Stopped  bool // wall limit reached
	Err      string
	Wall     float64
	Excluded int
}

type fakeTB struct {
	failed bool
	log    []string
}

type tbExit struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "vh" }
func (f *fakeTB) Logf(s string, a ...any)   { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(string, ...any)      {}
func (f *fakeTB) Skip(...any)               {}
func (f *fakeTB) SkipNow()                  {}
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.failed = true; f.Logf(s, a...); panic(tbExit{}) }
func (f *fakeTB) Fatal(a ...any)            { f.failed = true; f.Log(a...); panic(tbExit{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(tbExit{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func loUp() {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(s)
	var ifr [40]byte
	copy(ifr[:], "lo")
	*(*uint16)(unsafe.Pointer(&ifr[16])) = syscall.IFF_UP | syscall.IFF_RUNNING
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr[0])))
}

func runOne(ck *Check, c any, dir string, shard int, ns bool) (r R) {
	x := &X{Dir: dir, Shard: shard, NS: ns}
	if s := os.Getenv("VH_SLOW"); s != "" {
		x.Slow, _ = strconv.ParseFloat(s, 64)
	}
	defer x.Close()
	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-done:
		case <-time.After(300 * time.Second):
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "vh: case hangs\n%s\n", buf[:n])
			os.Exit(3)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessErr); ok {
				r = R{Skip: "harness: " + h.Error()}
				return
			}
			panic(p)
		}
	}()
	r = ck.Run(x, c)
	if r.Bad == "" && r.Skip == "" {
		for _, co := range x.cores {
			if m, d := co.Crashed(); d {
				r = bad("%s", m)
			}
		}
	}
	return r
}

// runCase applies the policy for time-outs and harness problems.
func runCase(ck *Check, c any, dir string, shard int, ns bool) R {
	r := runOne(ck, c, dir, shard, ns)
	if r.Skip != "" {
		time.Sleep(200 * time.Millisecond)
		r = runOne(ck, c, dir, shard, ns)
	}
	if r.Bad != "" && r.Live {
		first := r.Bad
		r = runOne(ck, c, dir, shard, ns)
		if r.Bad == "" && r.Skip == "" {
			r.Labels = append(r.Labels, "timeout-not-reproduced")
			fmt.Fprintf(os.Stderr, "vh: not reproduced: %s\n", first)
		}
	}
	return r
}

func shardMain(args []string) int {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("id", "", "")
	shard := fs.Int("shard", 0, "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	ns := fs.Bool("ns", false, "")
	wall := fs.Float64("wall", 240, "")
	known := fs.String("known", "", "")
	replay := fs.String("replay", "", "")
	fs.Parse(args)
	if *ns {
		loUp()
	}
	loadKnown(*known)
	ck := checks[*id]
	so := &ShardOut{Labels: map[string]int{}, Skips: map[string]int{}, Known: map[string]int{}, Seed: *seed}
	start := time.Now()
	defer func() {
		so.Wall = time.Since(start).Seconds()
		b, _ := json.Marshal(so)
		os.WriteFile(*out+".tmp", b, 0o644)
		os.Rename(*out+".tmp", *out)
	}()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			so.Err = err.Error()
			return 0
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			so.Err = err.Error()
			return 0
		}
		c := ck.New()
		if err := json.Unmarshal(rf.Case, c); err != nil {
			so.Err = err.Error()
			return 0
		}
		r := runCase(ck, c, *dir, *shard, *ns)
		so.Evals = 1
		so.Bad = r.Bad
		if r.Skip != "" {
			so.Skips[r.Skip]++
		}
		so.Finished = true
		return 0
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.checks", strconv.Itoa(*n))
	flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "12s")
	stopFile := filepath.Join(filepath.Dir(*out), "violation")
	var lastBad string
	var lastCase json.RawMessage
	nonSeen := map[string]bool{}
	var shrinkFrom time.Time
	tb := &fakeTB{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbExit); ok {
					return
				}
				so.Err = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := ck.Gen(t)
			if time.Since(start).Seconds() > *wall && lastBad == "" {
				so.Stopped = true
				return
			}
			if lastBad == "" && *replay == "" {
				// another shard has had a violation for a while
				if fi, err := os.Stat(stopFile); err == nil && time.Since(fi.ModTime()) > 20*time.Second {
					so.Stopped = true
					return
				}
			}
			if lastBad != "" && time.Since(shrinkFrom) > 45*time.Second {
				return // shrinking takes too long
			}
			js, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			// run from the JSON form, as a replay would
			c2 := ck.New()
			if err := json.Unmarshal(js, c2); err != nil {
				panic(err)
			}
			r := runCase(ck, c2, *dir, *shard, *ns)
			if lastBad == "" {
				so.Evals++
				for _, l := range r.Labels {
					so.Labels[l]++
				}
				for _, k := range r.Known {
					so.Known[k]++
				}
				if r.Skip != "" {
					so.Skips[head(r.Skip, 200)]++
				}
				if r.Nontriv && r.Skip == "" {
					h := sha256.Sum256(js)
					hs := hex.EncodeToString(h[:12])
					if !nonSeen[hs] {
						nonSeen[hs] = true
						so.Nontriv = append(so.Nontriv, hs)
						if len(so.Samples) < 2 && len(js) < 6000 {
							so.Samples = append(so.Samples, js)
						}
					}
				}
			}
			if r.Bad != "" {
				if lastBad == "" {
					shrinkFrom = time.Now()
					if f, err := os.OpenFile(stopFile, os.O_CREATE|os.O_EXCL, 0o644); err == nil {
						f.Close()
					}
				}
				lastBad, lastCase = r.Bad, js
				t.Fatalf("violation")
			}
		})
	}()
	so.Bad, so.BadCase = lastBad, lastCase
	if lastBad == "" && tb.failed && so.Err == "" {
		so.Err = "generator problem: " + strings.Join(tb.log, "\n")
	}
	so.Finished = true
	return 0
}

// --- parent ---------------------------------------------------------------------------------

type ReplayFile struct {
	Property   string          `json:"property"`
	What       string          `json:"what"`
	Seed       uint64          `json:"seed"`
	Reproduced string          `json:"reproduced,omitempty"`
	Case       json.RawMessage `json:"case"`
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b*0xbf58476d1ce4e5b9 + 0x1234567
	z ^= z >> 30
	z *= 0xbf58476d1ce4e5b9
	z ^= z >> 27
	z *= 0x94d049bb133111eb
	z ^= z >> 31
	if z == 0 {
		z = 1
	}
	return z
}

func nsAttr() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
}

// nsWorks: can a child get its own network namespace with a working loopback?
func nsWorks(self string) bool {
	if os.Getenv("VH_NONS") != "" {
		return false
	}
	cmd := exec.Command(self, "nsprobe")
	cmd.SysProcAttr = nsAttr()
	return cmd.Run() == nil
}

func spawnShard(self string, ns bool, args []string) error {
	cmd := exec.Command(self, append([]string{"shard"}, args...)...)
	if ns {
		cmd.SysProcAttr = nsAttr()
	} else {
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	}
	cmd.Stderr = os.Stderr
	cmd.Stdout = os.Stderr
	return cmd.Run()
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	dir := fs.String("dir", "", "directory with the binaries")
	verif := fs.String("verif", "/verif", "")
	nFlag := fs.Int("n", 0, "")
	shFlag := fs.Int("shards", 0, "")
	fs.Parse(args)
	id := fs.Arg(0)
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	n, wall := ck.Quick, 200.0
	if tier == "thorough" {
		n, wall = ck.Thorough, 600.0
	}
	if *nFlag > 0 {
		n = *nFlag
	}
	shards := 8
	if ck.MaxSh > 0 {
		shards = ck.MaxSh
	}
	if *shFlag > 0 {
		shards = *shFlag
	}
	if shards > n {
		shards = n
	}
	selfs := []string{filepath.Join(*dir, "vh")}
	if ck.Alt {
		selfs = append(selfs, filepath.Join(*dir, "vh-alt"))
	}
	ns := nsWorks(selfs[0])
	if !ns && !ck.InProc {
		n = (n + 3) / 4
	}
	known := filepath.Join(*verif, "known-findings.txt")
	loadKnown(known)
	tmp, err := os.MkdirTemp("", "vhrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	outs := make([]*ShardOut, shards)
	errs := make([]error, shards)
	runShard := func(i int) {
		k := n / shards
		if i < n%shards {
			k++
		}
		s := mix(uint64(seed), uint64(i)+1000)
		of := filepath.Join(tmp, fmt.Sprintf("o%d", i))
		w := wall
		if !ns && !ck.InProc {
			w = wall * 2 / float64(shards)
		}
		errs[i] = spawnShard(selfs[i%len(selfs)], ns, []string{"-id", id, "-shard", strconv.Itoa(i), "-seed", strconv.FormatUint(s, 10), "-n", strconv.Itoa(k), "-out", of, "-dir", *dir, "-ns=" + strconv.FormatBool(ns), "-wall", fmt.Sprint(w), "-known", known})
		b, err := os.ReadFile(of)
		if err != nil {
			if errs[i] == nil {
				errs[i] = err
			}
			return
		}
		so := &ShardOut{}
		if err := json.Unmarshal(b, so); err != nil {
			errs[i] = err
			return
		}
		outs[i] = so
	}
	if ns || ck.InProc {
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); runShard(i) }()
		}
		wg.Wait()
	} else {
		for i := 0; i < shards; i++ {
			runShard(i)
			if outs[i] != nil && outs[i].Bad != "" {
				break
			}
		}
	}
	// merge
	tot := &ShardOut{Labels: map[string]int{}, Skips: map[string]int{}, Known: map[string]int{}}
	distinct := map[string]bool{}
	var firstBad *ShardOut
	badShard := 0
	problem := ""
	for i, so := range outs {
		if so == nil {
			if errs[i] != nil {
				problem = fmt.Sprintf("shard %d: %v", i, errs[i])
			}
			continue
		}
		if so.Err != "" {
			problem = so.Err
		}
		tot.Evals += so.Evals
		for _, h := range so.Nontriv {
			distinct[h] = true
		}
		for k, v := range so.Labels {
			tot.Labels[k] += v
		}
		for k, v := range so.Skips {
			tot.Skips[k] += v
		}
		for k, v := range so.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, so.Samples...)
		}
		tot.Stopped = tot.Stopped || so.Stopped
		if so.Bad != "" && (firstBad == nil || len(so.BadCase) < len(firstBad.BadCase)) {
			firstBad = so
			badShard = i
		}
	}
	skips := 0
	for _, v := range tot.Skips {
		skips += v
	}
	code := 0
	viol := 0
	replayPath := ""
	if firstBad != nil {
		viol = 1
		code = 1
		rd := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		replayPath = filepath.Join(rd, fmt.Sprintf("%s-seed%d-%s.json", id, seed, tier))
		rf := ReplayFile{Property: id, What: firstBad.Bad, Seed: firstBad.Seed, Case: firstBad.BadCase}
		write := func() {
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(replayPath, append(b, '\n'), 0o644)
		}
		write()
		rep := 0
		const tries = 2
		var rw sync.WaitGroup
		var rm sync.Mutex
		for k := 0; k < tries; k++ {
			one := func() {
				of := filepath.Join(tmp, fmt.Sprintf("r%d", k))
				spawnShard(selfs[badShard%len(selfs)], ns, []string{"-id", id, "-shard", strconv.Itoa(badShard), "-out", of, "-dir", *dir, "-ns=" + strconv.FormatBool(ns), "-known", known, "-replay", replayPath})
				if b, err := os.ReadFile(of); err == nil {
					so := &ShardOut{}
					if json.Unmarshal(b, so) == nil && so.Bad != "" {
						rm.Lock()
						rep++
						rm.Unlock()
					}
				}
			}
			if !ns && !ck.InProc {
				one()
				continue
			}
			rw.Add(1)
			go func() { defer rw.Done(); one() }()
		}
		rw.Wait()
		rf.Reproduced = fmt.Sprintf("%d of %d replays", rep, tries)
		write()
		fmt.Printf("%s: %s\n", id, firstBad.Bad)
	} else if problem != "" {
		code = 2
	} else if tot.Evals == 0 || skips*2 > tot.Evals {
		code = 2
		problem = fmt.Sprintf("too many inconclusive cases: %v", tot.Skips)
	}
	if tot.Samples == nil {
		tot.Samples = []json.RawMessage{}
	}
	if len(tot.Samples) > 4 {
		tot.Samples = tot.Samples[:4]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": tot.Evals, "distinct_nontrivial": len(distinct), "rule": ck.Rule,
			"samples": tot.Samples, "labels": tot.Labels, "inconclusive": tot.Skips, "known_findings_seen": tot.Known,
			"stopped_by_wall_limit": tot.Stopped, "network_namespaces": ns, "shards": shards,
		},
		"assumptions": append([]string{"The fake Redis of the harness behaves like Redis for the commands used (XADD, XTRIM, XREAD, AUTH, PING)."}, ck.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for sig := range tot.Known {
		what := knownSigs[id][sig]
		if i := strings.Index(what, "signature="+sig); i >= 0 {
			what = strings.TrimSpace(what[i+len("signature="+sig):])
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, sig, what)
	}
	var ls []string
	for _, k := range sortedKeys(tot.Labels) {
		ls = append(ls, fmt.Sprintf("%s=%d", k, tot.Labels[k]))
	}
	sort.Strings(ls)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s; %s\n", id, tier, seed, tot.Evals, len(distinct), skips, time.Since(start).Seconds(), strings.Join(ls, " "))
	if skips > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive: %v\n", tot.Skips)
	}
	if problem != "" {
		fmt.Fprintln(os.Stderr, "problem:", problem)
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
	}
	return code
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	dir := fs.String("dir", "", "")
	verif := fs.String("verif", "/verif", "")
	n := fs.Int("n", 3, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self := filepath.Join(*dir, "vh")
	ns := nsWorks(self)
	for k := 0; k < *n; k++ {
		of := filepath.Join(os.TempDir(), fmt.Sprintf("vhreplay%d-%d", os.Getpid(), k))
		spawnShard(self, ns, []string{"-id", rf.Property, "-out", of, "-dir", *dir, "-ns=" + strconv.FormatBool(ns), "-known", filepath.Join(*verif, "known-findings.txt"), "-replay", fs.Arg(0)})
		ob, err := os.ReadFile(of)
		os.Remove(of)
		so := &ShardOut{}
		if err != nil || json.Unmarshal(ob, so) != nil {
			fmt.Println("no result")
			continue
		}
		if so.Err != "" {
			fmt.Println("error:", so.Err)
		}
		if so.Bad != "" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", so.Bad, rf.Property, fs.Arg(0))
			return 1
		}
		fmt.Println("held", so.Skips)
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|replay|list …")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "nsprobe":
		loUp()
		os.Exit(nsProbe())
	case "shard":
		os.Exit(shardMain(os.Args[2:]))
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
	case "gen": // print sample cases
		ck := checks[os.Args[2]]
		g := rapid.Custom(func(t *rapid.T) any { return ck.Gen(t) })
		for i := 0; i < 5; i++ {
			b, _ := json.MarshalIndent(g.Example(i), "", " ")
			fmt.Println(string(b))
		}
	default:
		os.Exit(2)
	}
}
