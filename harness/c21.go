package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C21: the example matchmaker against a core that answers by a script.

type Ans21 struct {
	MS   int `json:",omitempty"` // delay before the answer
	Fail int `json:",omitempty"` // 1: an error, 2: another error, 3: (REST) connection closed
}

type Inv21 struct {
	Matches int
	Tickets int // per match
	Rosters int
	MS      int
}

type Case21 struct {
	Conn   string
	Tix    int
	Dur    int
	Sim    bool
	Create []Ans21 // taken in turn
	Act    []Ans21
	Inv    []Inv21
	Odd    bool // unusual ticket ids
	Spaces bool `json:",omitempty"` // REST answers have a space after every comma, as those of half of all builds have
}

func genAns21(t *rapid.T, maxMS, failing int) []Ans21 {
	var l []Ans21
	for i := rapid.IntRange(1, 6).Draw(t, "nans"); i > 0; i-- {
		a := Ans21{}
		switch rapid.IntRange(0, 5).Draw(t, "ms") {
		case 2:
			a.MS = rapid.IntRange(1, 30).Draw(t, "ms1")
		case 3:
			a.MS = rapid.IntRange(30, 400).Draw(t, "ms2")
		case 4:
			a.MS = rapid.IntRange(400, maxMS).Draw(t, "ms3")
		}
		if rapid.IntRange(0, failing).Draw(t, "fail") == failing/2 && failing < 100 {
			a.Fail = rapid.IntRange(1, 3).Draw(t, "fk")
		}
		l = append(l, a)
	}
	return l
}

func genCase21(t *rapid.T) any {
	c := &Case21{Conn: pick(t, []string{"grpc", "http"}, "conn"), Dur: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "dur")}
	c.Sim = rapid.IntRange(0, 7).Draw(t, "sim") != 4
	c.Tix = rapid.SampledFrom([]int{1, 3, 40, 499, 500, 501, 999, 1000, 1200, 1501}).Draw(t, "tix")
	if c.Conn == "http" && c.Tix > 1001 {
		c.Tix = 700
	}
	fk := rapid.SampledFrom([]int{100, 100, 6, 3}).Draw(t, "failing")
	c.Create = genAns21(t, 1700, fk)
	if rapid.IntRange(0, 2).Draw(t, "plain") == 1 {
		c.Create = []Ans21{{}}
	}
	c.Act = genAns21(t, 1300, rapid.SampledFrom([]int{100, 4}).Draw(t, "actfail"))
	for i := rapid.IntRange(0, 4).Draw(t, "ninv"); i > 0; i-- {
		v := Inv21{Rosters: rapid.IntRange(0, 3).Draw(t, "nr")}
		v.Matches = rapid.SampledFrom([]int{60, 200, 700, 5, 1, 0}).Draw(t, "nm")
		v.Tickets = rapid.SampledFrom([]int{2, 12, 60, 1, 0}).Draw(t, "nt")
		if v.Matches == 700 && rapid.Bool().Draw(t, "big") {
			v.Matches, v.Tickets, v.Rosters = 1500, 50, 2 // more than one call's worth of rejected tickets
		}
		v.MS = rapid.SampledFrom([]int{0, 20, 300}).Draw(t, "ims")
		c.Inv = append(c.Inv, v)
	}
	c.Odd = rapid.IntRange(0, 4).Draw(t, "odd") == 2
	c.Spaces = rapid.Bool().Draw(t, "spaces")
	switch rapid.IntRange(0, 39).Draw(t, "flood") {
	case 13: // more tickets at once than the example's queue has room for
		*c = Case21{Conn: "grpc", Tix: 6500, Dur: 3, Sim: true, Create: []Ans21{{}}, Act: []Ans21{{MS: 4500}, {}, {}, {}, {}, {}}}
		if rapid.Bool().Draw(t, "slow") {
			c.Act = []Ans21{{MS: 5000}}
		}
	case 27: // more rejected tickets at once than the queue has room for
		v := Inv21{Rosters: 2, Matches: 180, Tickets: 6000}
		if rapid.Bool().Draw(t, "huge") {
			v = Inv21{Rosters: 1, Matches: 110, Tickets: 10600}
		}
		c.Inv = []Inv21{v, {Matches: 60, Tickets: 2, Rosters: 1}}
		c.Act, c.Tix, c.Dur = []Ans21{{}}, 1, 1
	}
	return c
}

type fake21 struct {
	pb.UnimplementedOpenMatchServiceServer
	cs    *Case21
	mu    sync.Mutex
	n     int            // creations so far
	open  int            // creations not answered yet
	last  time.Time      // last creation that came or was answered
	lastA time.Time      // last activation that came or was answered
	made  map[string]int // ids given out: number of activations
	back  map[string]int // tickets of matches: number of activations
	cycle map[string]int // their cycle
	fly   map[int]int    // cycle -> activations of its tickets not answered yet
	acts  int
	openA int
	big   int
	full  int
	invs  int
	fail  string
	stop  chan struct{}
	noSim bool
	// per match: its tickets
	matches [][]string
}

func (f *fake21) bad(s string, a ...any) {
	if f.fail == "" {
		f.fail = fmt.Sprintf(s, a...)
	}
}

func (f *fake21) wait(ms int) {
	if ms > 0 {
		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
		case <-f.stop:
		}
	}
}

// create gives the answer to a creation: the id, or how it fails.
func (f *fake21) create() (id string, fail int) {
	f.mu.Lock()
	a := f.cs.Create[f.n%len(f.cs.Create)]
	k := f.n
	f.n++
	f.open++
	f.last = time.Now()
	f.mu.Unlock()
	f.wait(a.MS)
	f.mu.Lock()
	defer f.mu.Unlock()
	f.open--
	f.last = time.Now()
	if a.Fail != 0 {
		return "", a.Fail
	}
	id = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), k)
	if f.cs.Odd {
		id = fmt.Sprintf("%s%d", []string{"t", "é ", "\"q\\", "0-"}[k%4], k)
	}
	f.made[id] = 0
	return id, 0
}

func (f *fake21) activate(ids []string) (fail int) {
	f.mu.Lock()
	a := f.cs.Act[f.acts%len(f.cs.Act)]
	f.acts++
	f.openA++
	f.lastA = time.Now()
	if len(ids) > 500 {
		f.bad("one call activates %d tickets", len(ids))
	}
	if len(ids) == 500 {
		f.full++
	}
	cyc := map[int]bool{}
	for _, id := range ids {
		if id == "" {
			f.bad("a call activates an empty id (and %d others)", len(ids)-1)
			continue
		}
		if _, ok := f.made[id]; ok {
			f.made[id]++
			if f.made[id] > 1 {
				f.bad("ticket %q, created once, was activated %d times", id, f.made[id])
			}
			continue
		}
		c, ok := f.cycle[id]
		if !ok {
			f.bad("a call activates ticket %q, which was neither created nor matched", id)
			continue
		}
		f.back[id]++
		if f.back[id] > 1 {
			f.bad("ticket %q of one match was re-activated %d times", id, f.back[id])
		}
		if c < f.invs {
			f.bad("ticket %q of cycle %d was re-activated after cycle %d had begun", id, c, f.invs)
		}
		cyc[c] = true
	}
	for c := range cyc {
		f.fly[c]++
	}
	f.mu.Unlock()
	f.wait(a.MS)
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range cyc {
		f.fly[c]--
	}
	f.openA--
	f.lastA = time.Now()
	return a.Fail
}

// invoke gives the matches of the next cycle; nil: none any more.
func (f *fake21) invoke() []*pb.Match {
	f.mu.Lock()
	for c, n := range f.fly {
		if n > 0 {
			f.bad("cycle %d began while %d re-activation calls of cycle %d had not been answered", f.invs+1, n, c)
		}
	}
	k := f.invs
	f.invs++
	if k >= len(f.cs.Inv) {
		f.mu.Unlock()
		<-f.stop
		return nil
	}
	v := f.cs.Inv[k]
	var out []*pb.Match
	for i := 0; i < v.Matches; i++ {
		m := &pb.Match{Id: fmt.Sprintf("m%d-%d", k, i)}
		var l []string
		if v.Rosters > 0 {
			m.Rosters = map[string]*pb.Roster{}
			for r := 0; r < v.Rosters; r++ {
				m.Rosters[fmt.Sprintf("r%d", r)] = &pb.Roster{Name: "r"}
			}
			for j := 0; j < v.Tickets; j++ {
				id := fmt.Sprintf("1-%d-%d-%d", k, i, j)
				if f.cs.Odd {
					id = fmt.Sprintf("%s%d-%d-%d", []string{"a ", "{", "\"},", "t"}[j%4], k, i, j)
				}
				l = append(l, id)
				f.cycle[id] = k + 1
				f.back[id] = 0
				r := m.Rosters[fmt.Sprintf("r%d", j%v.Rosters)]
				r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
			}
		}
		f.matches = append(f.matches, l)
		out = append(out, m)
	}
	f.mu.Unlock()
	f.wait(v.MS)
	return out
}

func err21(fail int) error {
	if fail == 2 {
		return status.Error(codes.ResourceExhausted, "")
	}
	return status.Error(codes.Internal, "planned failure")
}

func (f *fake21) CreateTicket(context.Context, *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	id, fail := f.create()
	if fail != 0 {
		return nil, err21(fail)
	}
	return &pb.CreateTicketResponse{TicketId: id}, nil
}

func (f *fake21) ActivateTickets(_ context.Context, in *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	if fail := f.activate(in.GetTicketIds()); fail != 0 {
		return nil, err21(fail)
	}
	return &pb.ActivateTicketsResponse{}, nil
}

func (f *fake21) InvokeMatchmakingFunctions(_ *pb.MmfRequest, s pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	for _, m := range f.invoke() {
		if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return err
		}
	}
	return nil
}

func (f *fake21) json(m proto.Message) []byte {
	b := compact21(m)
	if !f.cs.Spaces {
		return b
	}
	var o []byte
	str := false
	for i := 0; i < len(b); i++ {
		o = append(o, b[i])
		switch {
		case str && b[i] == '\\':
			i++
			o = append(o, b[i])
		case b[i] == '"':
			str = !str
		case b[i] == ',' && !str:
			o = append(o, ' ')
		}
	}
	return o
}

func compact21(m proto.Message) []byte {
	b, err := protojson.Marshal(m)
	if err != nil {
		panic(err)
	}
	var o bytes.Buffer
	json.Compact(&o, b)
	return o.Bytes()
}

func (f *fake21) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return
	}
	answer := func(fail int, m proto.Message) {
		switch fail {
		case 0:
			w.Header().Set("Content-Type", "application/json")
			w.Write(f.json(m))
		case 1:
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(500)
			w.Write([]byte(`{"code":13,"message":"planned failure","details":[]}`))
		case 2:
			w.WriteHeader(503)
			w.Write([]byte("upstream connect error\n"))
		default:
			if h, ok := w.(http.Hijacker); ok {
				if c, _, err := h.Hijack(); err == nil {
					c.Close()
				}
			}
		}
	}
	switch r.URL.Path {
	case "/v2/tickets":
		id, fail := f.create()
		answer(fail, &pb.CreateTicketResponse{TicketId: id})
	case "/v2/tickets:activate":
		in := &pb.ActivateTicketsRequest{}
		if err := protojson.Unmarshal(body, in); err != nil {
			f.mu.Lock()
			f.bad("the body of an activation is no request: %v: %s", err, head(string(body), 300))
			f.mu.Unlock()
			w.WriteHeader(400)
			return
		}
		answer(f.activate(in.GetTicketIds()), &pb.ActivateTicketsResponse{})
	case "/v2/matches:fetch":
		for _, m := range f.invoke() {
			w.Write([]byte(`{"result":`))
			w.Write(f.json(&pb.StreamedMmfResponse{Match: m}))
			w.Write([]byte("}\n"))
		}
	default:
		w.WriteHeader(404)
	}
}

// rejected21 reads the example's own count of rejected matches.
func rejected21() (n float64, ok bool) {
	resp, err := (&http.Client{Timeout: 5 * time.Second}).Get("http://127.0.0.1:2233/metrics")
	if err != nil {
		return 0, false
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "matches_rejected_total"); i >= 0 && l[0] != '#' {
			fs := strings.Fields(l)
			if _, err := fmt.Sscan(fs[len(fs)-1], &n); err == nil {
				return n, true
			}
		}
	}
	return 0, strings.Contains(string(b), "target_info")
}

func run21(x *X, ci any) (res R) {
	cs := ci.(*Case21)
	if !x.NS {
		return R{Skip: "no network namespace of its own"}
	}
	f := &fake21{cs: cs, made: map[string]int{}, back: map[string]int{}, cycle: map[string]int{}, fly: map[int]int{}, stop: make(chan struct{}), last: time.Now()}
	lg, err := net.Listen("tcp", "127.0.0.1:8080")
	if err != nil {
		return R{Skip: err.Error()}
	}
	srv := grpc.NewServer()
	pb.RegisterOpenMatchServiceServer(srv, f)
	go srv.Serve(lg)
	x.Defer(srv.Stop)
	lh, err := net.Listen("tcp", "127.0.0.1:58081")
	if err != nil {
		return R{Skip: err.Error()}
	}
	hs := &http.Server{Handler: f}
	go hs.Serve(lh)
	x.Defer(func() { hs.Close() })
	x.Defer(func() { close(f.stop) })

	errOut := &tailBuf{max: 1 << 16}
	cmd := exec.Command(x.Dir+"/example", "-conn", cs.Conn, "-tix", fmt.Sprint(cs.Tix), "-dur", fmt.Sprint(cs.Dur), fmt.Sprintf("-sim=%v", cs.Sim), "-ignoreempty")
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single"}
	cmd.Dir = "/"
	cmd.Stderr, cmd.Stdout = errOut, errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	if err := cmd.Start(); err != nil {
		return R{Skip: err.Error()}
	}
	exited := make(chan struct{})
	var werr error
	go func() { werr = cmd.Wait(); close(exited) }()
	x.Defer(func() { cmd.Process.Kill(); <-exited })
	dead := func() bool {
		select {
		case <-exited:
			return true
		default:
			return false
		}
	}
	failed := func() string { f.mu.Lock(); defer f.mu.Unlock(); return f.fail }
	// until all creations are answered and all cycles are over
	limit := start.Add(x.T(60 * time.Second))
	for {
		time.Sleep(10 * time.Millisecond)
		if s := failed(); s != "" {
			return bad("%s", s)
		}
		if dead() {
			break
		}
		f.mu.Lock()
		over := f.open == 0 && (!cs.Sim || f.n >= cs.Tix*cs.Dur || time.Since(f.last) > 2500*time.Millisecond && time.Since(start) > time.Duration(cs.Dur+3)*time.Second)
		over = over && f.invs > len(cs.Inv)
		n, op, iv := f.n, f.open, f.invs
		f.mu.Unlock()
		if over {
			break
		}
		if time.Now().After(limit) {
			return live("after 60 s: %d creations (%d of them not answered), %d of %d cycles: %s", n, op, iv, len(cs.Inv), tail(errOut.String(), 300))
		}
	}
	// every created ticket is activated now
	end := time.Now().Add(x.T(12 * time.Second))
	for {
		if s := failed(); s != "" {
			return bad("%s", s)
		}
		missing, ex := 0, ""
		f.mu.Lock()
		for id, n := range f.made {
			if n == 0 {
				missing++
				ex = id
			}
		}
		total := len(f.made)
		f.mu.Unlock()
		if missing == 0 {
			break
		}
		if dead() {
			return live("the example ended (%v): %s", werr, tail(errOut.String(), 800))
		}
		if time.Now().After(end) {
			return live("%d of %d tickets that were created successfully (such as %q) had not been activated 12 s later", missing, total, ex)
		}
		time.Sleep(10 * time.Millisecond)
	}
	// and not again
	q := time.Now()
	for time.Since(q) < 1500*time.Millisecond || func() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.openA > 0 }() {
		if time.Since(q) > x.T(10*time.Second) || dead() {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if s := failed(); s != "" {
		return bad("%s", s)
	}
	if dead() {
		return live("the example ended (%v): %s", werr, tail(errOut.String(), 800))
	}
	// matches are re-activated as a whole
	f.mu.Lock()
	defer f.mu.Unlock()
	re, ret, withT := 0, 0, 0
	for i, l := range f.matches {
		n := 0
		for _, id := range l {
			n += f.back[id]
		}
		if n > 0 && n < len(l) {
			return bad("of the %d tickets of match %d, only %d were re-activated", len(l), i, n)
		}
		if len(l) > 0 {
			withT++
		}
		if n > 0 {
			re++
			ret += n
		}
	}
	if withT >= 1300 && re == 0 { // 2 in 100 are rejected: less than one in 10^11
		return bad("none of %d matches was re-activated", withT)
	}
	if withT == len(f.matches) {
		if n, ok := rejected21(); ok && int(n) != re {
			return bad("%v matches were rejected, but %d were re-activated", n, re)
		}
	}
	res.Nontriv = len(f.made) > 0 || re > 0
	if f.full > 0 {
		res.Labels = append(res.Labels, "full-calls")
	}
	if re > 0 {
		res.Labels = append(res.Labels, "re-activated")
	}
	if ret > 500 {
		res.Labels = append(res.Labels, "re-activated>500")
	}
	if ret > 10000 {
		res.Labels = append(res.Labels, "re-activated>10000")
	}
	if len(f.made) > 10000 {
		res.Labels = append(res.Labels, "created>10000")
	}
	if len(f.made) > 500 {
		res.Labels = append(res.Labels, "created>500")
	}
	for _, a := range cs.Create {
		if a.Fail > 0 {
			res.Labels = append(res.Labels, "failed-creations")
			break
		}
	}
	res.Labels = append(res.Labels, cs.Conn)
	return res
}

func init() {
	register(&Check{
		ID:       "C21",
		Rule:     "A case runs the example matchmaker (gRPC or REST) for 1-3 simulated seconds of 1-1501 tickets against a core that answers creations, activations and invocations by a script: delays up to 1.7 s, errors, error pages and closed connections, and up to four cycles of up to 1500 matches with up to 60 tickets each, of which the example rejects 2 in 100. Every request reaching the core is judged. Non-trivial: a ticket was created or re-activated.",
		Quick:    288,
		Thorough: 4000,
		MaxSh:    32,
		New:      func() any { return &Case21{} },
		Gen:      genCase21,
		Run:      run21,
		Assume:   []string{"A creation is successful when the core answered it with an id; an activation call counts when it reaches the core, whatever the answer.", "Which matches are rejected is the example's own random choice; it shows in its metrics."},
	})
}
