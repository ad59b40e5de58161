package main

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C24: what is over takes no resources: the same round of calls, made twice or three times, must
// not leave more goroutines, file descriptors, match function connections and memory every time.

type Op24 struct {
	Kind string // create activate deactivate assign watch invoke malformed stored
	N    int    // so many per round
	Rest bool   `json:",omitempty"`
	Ids  int    `json:",omitempty"` // ticket ids per call
	Junk int    `json:",omitempty"` // malformed ids per call
	Var  int    `json:",omitempty"`
	Pad  int    `json:",omitempty"` // bytes of payload
	Fns  []*FnS `json:",omitempty"`
	End  string `json:",omitempty"` // how the caller leaves: "" (waits), cancel, gone, deadline
	Stop int    `json:",omitempty"` // ms until it leaves
}

type Case24 struct {
	Bin     string
	Mem     bool
	Wait    bool
	TTL     int // s
	Add     int // s
	Timeout int // s
	N       int // tickets that live on
	Par     int
	Refuse  bool // state storage refuses every third update
	Heavy   bool // memory is measured
	Ops     []*Op24
}

func genCase24(t *rapid.T) any {
	c := &Case24{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 2).Draw(t, "mem") == 2, Wait: rapid.Bool().Draw(t, "wait"), TTL: 600, Timeout: 1}
	c.N = rapid.IntRange(1, 30).Draw(t, "n")
	c.Par = rapid.SampledFrom([]int{24, 12, 48}).Draw(t, "par")
	c.Heavy = rapid.IntRange(0, 2).Draw(t, "heavy") == 2
	if c.Heavy {
		c.TTL = rapid.IntRange(1, 2).Draw(t, "ttl")
		c.Add = rapid.IntRange(0, 1).Draw(t, "add")
		c.Par = 8
		n, pad := 600, 16000
		if rapid.IntRange(0, 2).Draw(t, "small") == 1 {
			n, pad = 2500, 0
		}
		c.Ops = append(c.Ops, &Op24{Kind: "create", N: n, Pad: pad, Rest: rapid.IntRange(0, 3).Draw(t, "crest") == 3})
		for _, k := range []string{"activate", "deactivate", "activate", "assign"} {
			if rapid.IntRange(0, 3).Draw(t, "with"+k) != 3 {
				c.Ops = append(c.Ops, &Op24{Kind: k, N: n / 100, Ids: 100, Pad: pad})
			}
		}
		if !c.Mem && rapid.IntRange(0, 2).Draw(t, "stored") == 1 {
			c.Ops = append(c.Ops, &Op24{Kind: "stored", N: 40000, Var: rapid.SampledFrom([]int{7, 7, 5, 4, 3, 1, 0}).Draw(t, "sv")})
		}
		if rapid.Bool().Draw(t, "hinv") {
			c.Ops = append(c.Ops, &Op24{Kind: "invoke", N: 2, Fns: []*FnS{{Kind: "grpc", M: []*MatchS{{ID: "m", Ros: []*RosS{{Key: "r", T: []TRef{{I: 0}}}}}}}}})
		}
		return c
	}
	c.Refuse = !c.Mem && rapid.IntRange(0, 5).Draw(t, "refuse") == 3
	if rapid.IntRange(0, 3).Draw(t, "short") == 3 {
		c.TTL = 2 // watches end by themselves
	}
	leave := func(o *Op24) {
		switch rapid.IntRange(0, 6).Draw(t, "leave") {
		case 2, 3:
			o.End = "cancel"
		case 4:
			o.End = "deadline"
		case 5, 6:
			o.End = "gone"
		}
		if o.Rest && o.End != "" {
			o.End = "gone"
		}
		o.Stop = rapid.SampledFrom([]int{30, 1, 5, 100, 300, 0}).Draw(t, "stop")
	}
	for k := rapid.IntRange(1, 4).Draw(t, "no"); k > 0; k-- {
		o := &Op24{Kind: pick(t, []string{"invoke", "watch", "invoke", "create", "activate", "watch", "deactivate", "assign", "malformed"}, "kind"), N: rapid.SampledFrom([]int{24, 32, 48}).Draw(t, "on")}
		o.Rest = rapid.IntRange(0, 2).Draw(t, "rest") == 2
		o.Var = rapid.IntRange(0, 9).Draw(t, "var")
		o.Ids = rapid.IntRange(0, 5).Draw(t, "ids")
		if rapid.IntRange(0, 4).Draw(t, "jk") == 3 {
			o.Junk = rapid.IntRange(1, 3).Draw(t, "junk")
		}
		leave(o)
		if o.Kind == "watch" && o.End == "" && c.TTL > 2 {
			o.End = "cancel" // would not end
		}
		if o.Kind == "invoke" {
			for k := rapid.SampledFrom([]int{1, 2, 3, 0}).Draw(t, "nf"); k > 0; k-- {
				f := genFn(t, c.N, 3)
				for len(f.M) > 6 {
					f.M = f.M[:6]
				}
				for _, m := range f.M {
					m.Pad = min(m.Pad, 3000)
				}
				switch rapid.IntRange(0, 11).Draw(t, "fx") {
				case 7:
					f = &FnS{Kind: "blackhole"}
				case 8, 9:
					if f.Kind == "grpc" {
						f.End = "hang"
					}
				}
				if f.End == "drop" { // would be away in the later rounds
					f.End = "error"
				}
				if f.End == "oversize" {
					o.N = 24
				}
				o.Fns = append(o.Fns, f)
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type use24 struct{ gor, fds, heap float64 }

func (u use24) String() string {
	return fmt.Sprintf("%.0f goroutines, %.0f file descriptors, %.1f MB of heap", u.gor, u.fds, u.heap/1e6)
}

// use says what the server takes at this moment; state storage connections (see C08) left out.
func (c *Core) use(rd *FakeRedis, l *listener) (use24, error) {
	u := use24{gor: -1, heap: -1}
	b, err := c.httpGet("http://127.0.0.1:2223/metrics")
	if err != nil {
		return u, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		for k, p := range map[string]*float64{"go_goroutines ": &u.gor, "go_memstats_heap_alloc_bytes ": &u.heap} {
			if strings.HasPrefix(l, k) {
				*p, _ = strconv.ParseFloat(strings.TrimSpace(l[len(k):]), 64)
			}
		}
	}
	open := 0
	if rd != nil {
		open, _, _ = rd.ConnStats(l)
	}
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", c.cmd.Process.Pid))
	if err != nil {
		return u, err
	}
	u.fds = float64(len(es) - open)
	return u, nil
}

func run24(x *X, ci any) (res R) {
	cs := ci.(*Case24)
	if !x.NS {
		return R{Skip: "no network namespace of its own"}
	}
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_MMF_TIMEOUT_SECS"] = fmt.Sprint(cs.Timeout)
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(cs.TTL)
	env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = fmt.Sprint(cs.Add)
	if cs.Heavy {
		env["GOGC"] = "25"
	}
	c, rd, l, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	runs := map[*Op24][]*fnRun{}
	for i, o := range cs.Ops {
		for k, f := range o.Fns {
			runs[o] = append(runs[o], x.NewFn(fmt.Sprintf("f%d-%d", i, k), f, ids))
		}
	}
	var mu sync.Mutex
	n := 0
	if cs.Refuse {
		rd.SetHook(func(k *Cmd) Action {
			if k.Name == "XADD" {
				mu.Lock()
				defer mu.Unlock()
				if n++; n%3 == 0 {
					return Action{Kind: ActErr, Msg: "ERR refused by plan"}
				}
			}
			return Action{}
		})
	}
	base := "http://127.0.0.1:58081"
	var made []string // of this round
	pick24 := func(o *Op24, i int) []string {
		var out []string
		from := ids
		if cs.Heavy {
			mu.Lock()
			from = made
			mu.Unlock()
			if len(from) == 0 {
				return nil
			}
		}
		for k := 0; k < o.Ids; k++ {
			out = append(out, from[(i*o.Ids+k)%len(from)])
		}
		for k := 0; k < o.Junk; k++ {
			out = append(out, []string{"abc", "", "1-x"}[k%3])
		}
		return out
	}
	one := func(o *Op24, i int) *R {
		cl := c.Client
		lim := x.T(30 * time.Second)
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		defer cancel()
		stop := time.Duration(o.Stop) * time.Millisecond
		if o.End == "deadline" {
			var cc context.CancelFunc
			ctx, cc = context.WithTimeout(ctx, stop+time.Millisecond)
			defer cc()
		}
		if o.End == "cancel" {
			tm := time.AfterFunc(stop, cancel)
			defer tm.Stop()
		}
		if o.End == "gone" && !o.Rest {
			conn, k, err := c.NewConn()
			if err != nil {
				return &R{Skip: err.Error()}
			}
			defer conn.Close()
			cl = k
			tm := time.AfterFunc(stop+3*time.Millisecond, func() { conn.Close() })
			defer tm.Stop()
		}
		rest := func(rpc string, m proto.Message) *R {
			t := lim
			if o.End != "" {
				t = stop + 2*time.Millisecond
			}
			_, err := doRest(base, rpcByName(rpc), toJSON18(m, o.Var), true, t)
			if err != nil && o.End == "" {
				r := badErr(rpc+" over REST", err)
				return &r
			}
			return nil
		}
		over := func(rpc string, err error) *R {
			if m, d := c.CrashedSoon(err); d {
				r := bad("%s: %s", rpc, m)
				return &r
			}
			if o.End == "" && ctx.Err() != nil {
				r := live("%s did not return", rpc)
				return &r
			}
			return nil
		}
		switch o.Kind {
		case "malformed":
			doRest(base, rpcByName([]string{"CreateTicket", "ActivateTickets", "CreateAssignments", "InvokeMatchmakingFunctions"}[o.Var%4]), []byte(`{"ticketIds": [`), true, lim)
		case "create":
			req := &pb.CreateTicketRequest{Ticket: (&TicketS{Tags: []string{"a"}}).PB()}
			if o.Var == 9 {
				req.Ticket = nil
			}
			if o.Pad > 0 {
				req.Ticket.Extensions = extPB(map[string]AnyS{"pad": {Type: "p", Val: make([]byte, o.Pad)}})
			}
			if o.Rest && !cs.Heavy {
				return rest("CreateTicket", req)
			}
			r, err := cl.CreateTicket(ctx, req)
			if err == nil {
				mu.Lock()
				made = append(made, r.GetTicketId())
				mu.Unlock()
			}
			return over("CreateTicket", err)
		case "activate":
			req := &pb.ActivateTicketsRequest{TicketIds: pick24(o, i)}
			if o.Rest {
				return rest("ActivateTickets", req)
			}
			_, err := cl.ActivateTickets(ctx, req)
			return over("ActivateTickets", err)
		case "deactivate":
			req := &pb.DeactivateTicketsRequest{TicketIds: pick24(o, i)}
			if o.Rest {
				return rest("DeactivateTickets", req)
			}
			_, err := cl.DeactivateTickets(ctx, req)
			return over("DeactivateTickets", err)
		case "assign":
			req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: fmt.Sprintf("c%d-%0*d", i, o.Pad, 0)}}}
			for _, id := range pick24(o, i) {
				req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
			}
			if o.Rest {
				return rest("CreateAssignments", req)
			}
			_, err := cl.CreateAssignments(ctx, req)
			return over("CreateAssignments", err)
		case "watch":
			req := &pb.WatchAssignmentsRequest{TicketIds: pick24(o, i)}
			if o.Var > 6 { // of tickets nobody knows
				req.TicketIds = append(req.TicketIds, fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 100000+i))
			}
			if o.Rest {
				return rest("WatchAssignments", req)
			}
			st, err := cl.WatchAssignments(ctx, req)
			for err == nil {
				_, err = st.Recv()
			}
			return over("WatchAssignments", err)
		case "invoke":
			req := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}}
			for _, r := range runs[o] {
				req.Mmfs = append(req.Mmfs, r.spec)
			}
			if o.Var == 9 {
				req.Profile = nil
			}
			if o.Rest {
				return rest("InvokeMatchmakingFunctions", req)
			}
			st, err := cl.InvokeMatchmakingFunctions(ctx, req)
			for err == nil {
				_, err = st.Recv()
			}
			return over("InvokeMatchmakingFunctions", err)
		case "stored": // written by other instances
			if i > 0 {
				return nil
			}
			now := time.Now()
			ms := uint64(now.UnixMilli())
			es := make([][]string, o.N)
			for k := range es {
				t := (&TicketS{Tags: []string{"a"}, Cr: &TS{S: now.Unix()}, Ex: &TS{S: now.Unix() + int64(cs.TTL)}}).PB()
				es[k] = []string{"ticket", string(mustMarshal(t))}
			}
			new := rd.Preload(ms, es)
			for v, k := range []string{"activate", "deactivate", "assign"} {
				if o.Var&(1<<v) == 0 {
					continue
				}
				es := make([][]string, o.N)
				for i, id := range new {
					es[i] = []string{k, id}
					if k == "assign" {
						es[i] = append(es[i], "connection", string(mustMarshal(&pb.Assignment{Connection: "c"})))
					}
				}
				rd.Preload(ms, es)
			}
		}
		return nil
	}
	// the ticket that shows it may itself be gone too soon
	syncUp := func() (err error) {
		end := time.Now().Add(x.T(40 * time.Second))
		for {
			if err = c.sync1(min(x.T(40*time.Second), time.Duration(cs.TTL)*time.Second)); err == nil || time.Now().After(end) {
				return err
			}
			if _, d := err.(errCrash); d {
				return err
			}
		}
	}
	round := func() *R {
		mu.Lock()
		made = nil
		mu.Unlock()
		type job struct {
			o *Op24
			i int
		}
		var first *R
		run := func(js []job) {
			ch := make(chan job, len(js))
			for _, j := range js {
				ch <- j
			}
			close(ch)
			var wg sync.WaitGroup
			for k := 0; k < max(1, cs.Par); k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range ch {
						if r := one(j.o, j.i); r != nil {
							mu.Lock()
							if first == nil {
								first = r
							}
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
		}
		var js []job
		for _, o := range cs.Ops {
			if cs.Heavy { // one after the other
				js = nil
			}
			for i := 0; i < o.N && (o.Kind != "stored" || i == 0); i++ {
				js = append(js, job{o, i})
			}
			if cs.Heavy {
				run(js)
			}
		}
		if !cs.Heavy {
			// all kinds mixed
			var mixed []job
			for i := 0; len(mixed) < len(js); i++ {
				for _, o := range cs.Ops {
					if i < o.N {
						mixed = append(mixed, job{o, i})
					}
				}
			}
			run(mixed)
		}
		if first != nil {
			return first
		}
		// until the history is applied
		if err := syncUp(); err != nil {
			r := badErr("waiting for the updates", err)
			return &r
		}
		if cs.Heavy {
			time.Sleep(time.Duration(cs.TTL+cs.Add)*time.Second + 100*time.Millisecond)
		}
		return nil
	}
	const slack, slackFD = 10, 10
	slackHeap := 3e6
	low := func(a, b use24) use24 { return use24{min(a.gor, b.gor), min(a.fds, b.fds), min(a.heap, b.heap)} }
	above := func(u, was use24) bool {
		return u.gor > was.gor+slack || u.fds > was.fds+slackFD || cs.Heavy && u.heap > was.heap+slackHeap
	}
	// settle gives the least use seen until it no longer falls (or, given an earlier one, until it is back to that)
	settle := func(was *use24) (use24, *R) {
		least := use24{1e18, 1e18, 1e18}
		start := time.Now()
		fell := start
		for {
			if cs.Heavy && rd == nil || cs.Heavy && time.Since(start) < 50*time.Millisecond {
				// expired entries leave the cache in update cycles
				if err := syncUp(); err != nil {
					r := badErr("sync", err)
					return least, &r
				}
			}
			u, err := c.use(rd, l)
			if err != nil {
				r := badErr("metrics", err)
				if m, d := c.Crashed(); d {
					r = bad("%s", m)
				}
				return least, &r
			}
			m := low(u, least)
			if m.gor < least.gor || m.fds < least.fds || m.heap < least.heap-1e5 {
				fell = time.Now()
			}
			least = m
			if was != nil && !above(least, *was) {
				return least, nil
			}
			// functions have a time limit, and callers that left may have left some behind
			quiet := 700*time.Millisecond + time.Duration(cs.Timeout)*time.Second
			if was != nil {
				quiet = 3*time.Second + time.Duration(cs.TTL%600+cs.Timeout)*time.Second
			}
			if time.Since(fell) > x.T(quiet) {
				return least, nil
			}
			time.Sleep(15 * time.Millisecond)
		}
	}
	var us []use24
	for k := 0; k < 3; k++ {
		if r := round(); r != nil {
			return *r
		}
		var was *use24
		if k > 0 {
			was = &us[k-1]
		}
		u, r := settle(was)
		if r != nil {
			return *r
		}
		if os.Getenv("VH_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "C24 round", k, u)
		}
		us = append(us, u)
		if k == 1 && !above(us[1], us[0]) {
			break
		}
		if k == 2 {
			d1 := above(use24{us[1].gor, us[0].fds, us[0].heap}, us[0]) && above(use24{us[2].gor, us[1].fds, us[1].heap}, us[1])
			d2 := above(use24{us[0].gor, us[1].fds, us[0].heap}, us[0]) && above(use24{us[1].gor, us[2].fds, us[1].heap}, us[1])
			d3 := above(use24{us[0].gor, us[0].fds, us[1].heap}, us[0]) && above(use24{us[1].gor, us[1].fds, us[2].heap}, us[1])
			if d1 || d2 || d3 {
				var k []string
				for _, o := range cs.Ops {
					k = append(k, fmt.Sprintf("%d %s", o.N, o.Kind))
				}
				return live("every round of the same calls (%s), all of them over, leaves more behind: after the first %v, after the second %v, after the third %v", strings.Join(k, ", "), us[0], us[1], us[2])
			}
		}
	}
	if us[0].gor < 0 {
		res.Labels = append(res.Labels, "goroutines-unknown")
	}
	for _, o := range cs.Ops {
		res.Labels = append(res.Labels, o.Kind)
		if o.End != "" {
			res.Labels = append(res.Labels, "caller-leaves")
		}
		if o.Kind != "malformed" {
			res.Nontriv = true
		}
	}
	if cs.Heavy {
		res.Labels = append(res.Labels, "memory")
	}
	if cs.Refuse {
		res.Labels = append(res.Labels, "updates-refused")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C24",
		Rule:     "A case is one to four kinds of calls (creations, (de)activations, assignments, watches, invocations of all kinds of working, failing, hanging and unreachable functions, malformed requests; over gRPC and REST, with callers that wait, cancel, disconnect or have a deadline; optionally with refused updates), each made 24-48 times in a round; or hundreds of creations and updates with payloads, or tens of thousands of stored updates, of tickets that expire. After a round and the expiry the least number of goroutines, file descriptors (without state storage connections) and, with expiring tickets, live heap bytes seen is noted; the same round is repeated, and must come back to that but for 10, 10 and 3 MB; if not, a third one is made, and an equal growth again is a violation. Non-trivial: a call other than a malformed one.",
		Quick:    256,
		Thorough: 5000,
		MaxSh:    32,
		New:      func() any { return &Case24{} },
		Gen:      genCase24,
		Run:      run24,
	})
}
