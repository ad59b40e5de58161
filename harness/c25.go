package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"syscall"
	"time"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C25: an instance that is stopped or killed at any moment loses nothing that was acknowledged.

type Op25 struct {
	Kind string // create life activate deactivate assign watch invoke
	At   int    // ms
	Ids  []int  `json:",omitempty"`
	Rest bool   `json:",omitempty"`
	Hang bool   `json:",omitempty"` // the function does not end
	Val  int    `json:",omitempty"`
}

type Stop25 struct {
	Ops   []*Op25
	At    int    // ms after the start of the operations
	Sig   string // TERM INT KILL
	Twice bool   // the signal comes twice
	Delay int    // ms state storage takes per command
	Fault string // "", hang, down, from shortly before the stop
}

type Case25 struct {
	Bin   string
	Wait  bool
	Queue int
	Out   int // ms a batch waits for more
	N     int
	Runs  []*Stop25
}

func genCase25(t *rapid.T) any {
	c := &Case25{Bin: pick(t, bins, "bin"), Wait: rapid.Bool().Draw(t, "wait"), Queue: rapid.SampledFrom([]int{50, 1, 3, 10}).Draw(t, "queue")}
	c.Out = rapid.SampledFrom([]int{1, 1, 40, 150}).Draw(t, "out")
	c.N = rapid.IntRange(1, 20).Draw(t, "n")
	for r := rapid.IntRange(1, 3).Draw(t, "runs"); r > 0; r-- {
		s := &Stop25{At: rapid.IntRange(1, 120).Draw(t, "at"), Sig: pick(t, []string{"TERM", "INT", "KILL"}, "sig")}
		s.Twice = rapid.IntRange(0, 4).Draw(t, "twice") == 2
		s.Delay = rapid.SampledFrom([]int{0, 1, 5, 20, 60}).Draw(t, "delay")
		s.Fault = rapid.SampledFrom([]string{"", "", "", "hang", "down"}).Draw(t, "fault")
		for k := rapid.IntRange(3, 40).Draw(t, "no"); k > 0; k-- {
			o := &Op25{Kind: pick(t, []string{"create", "life", "activate", "deactivate", "assign", "invoke", "life", "watch"}, "kind"), At: rapid.IntRange(0, s.At+10).Draw(t, "oat")}
			o.Rest = rapid.IntRange(0, 4).Draw(t, "rest") == 3
			o.Val = rapid.IntRange(0, 1000000).Draw(t, "val")
			for i := rapid.IntRange(1, 4).Draw(t, "ni"); i > 0; i-- {
				o.Ids = append(o.Ids, rapid.IntRange(0, c.N-1).Draw(t, "id"))
			}
			if o.Kind == "invoke" {
				o.Hang = rapid.IntRange(0, 2).Draw(t, "hang") == 1
			}
			s.Ops = append(s.Ops, o)
		}
		c.Runs = append(c.Runs, s)
	}
	return c
}

// st25 is an update that must be in state storage.
type st25 struct {
	from      int // not before this position
	kind, key string
	val       string
	what      string
}

func fold25(log []*Entry) (on map[string]bool, asg map[string]string) {
	on, asg = map[string]bool{}, map[string]string{}
	known := map[string]bool{}
	for _, e := range log {
		if len(e.Fields) < 2 {
			continue
		}
		switch e.Fields[0] {
		case "ticket":
			known[e.ID()] = true
			on[e.ID()] = false
		case "activate":
			if known[e.Fields[1]] {
				on[e.Fields[1]] = true
			}
		case "deactivate":
			if known[e.Fields[1]] {
				on[e.Fields[1]] = false
			}
		case "assign":
			a := &pb.Assignment{}
			if len(e.Fields) == 4 && proto.Unmarshal([]byte(e.Fields[3]), a) == nil {
				asg[e.Fields[1]] = a.GetConnection()
			}
		}
	}
	return
}

func run25(x *X, ci any) (res R) {
	cs := ci.(*Case25)
	if !x.NS {
		return R{Skip: "no network namespace of its own"}
	}
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Queue)
	env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.Out)
	env["PORT"] = fmt.Sprint(freePort())
	c, rd, l, ids, rr := x.setupActive(env, cs.Bin, false, cs.N)
	if rr != nil {
		return *rr
	}
	mmf := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		ch, err := readChunks(s)
		if err != nil || len(ch) == 0 {
			return err
		}
		p := ch[0].GetProfile()
		var n int
		var h bool
		fmt.Sscanf(p.GetName(), "%d %t", &n, &h)
		m := &pb.Match{Id: p.GetName(), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: ids[n]}}}}}
		if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return err
		}
		if h {
			<-s.Context().Done()
		}
		return nil
	})
	var must []st25
	acked, cut := 0, 0
	for ri, s := range cs.Runs {
		base := "http://127.0.0.1:58081"
		var mu sync.Mutex
		need := func(n st25) {
			mu.Lock()
			must = append(must, n)
			mu.Unlock()
		}
		done := func(ok bool) {
			mu.Lock()
			if ok {
				acked++
			} else {
				cut++
			}
			mu.Unlock()
		}
		if s.Delay > 0 {
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "XADD" && k.Pipeline == 0 || k.Name == "XTRIM" {
					time.Sleep(time.Duration(s.Delay) * time.Millisecond)
				}
				return Action{}
			})
		}
		ctx, cancel := context.WithTimeout(context.Background(), x.T(40*time.Second))
		call := func(rest bool, rpc string, req proto.Message, f func() error) bool {
			if rest {
				g, err := doRest(base, rpcByName(rpc), toJSON18(req, 0), true, x.T(40*time.Second))
				return err == nil && g.http == 200 && g.err == nil
			}
			return f() == nil
		}
		act := func(rest bool, kind string, l []string) bool {
			from := rd.LogLen()
			var ok bool
			if kind == "activate" {
				req := &pb.ActivateTicketsRequest{TicketIds: l}
				ok = call(rest, "ActivateTickets", req, func() error { _, err := c.Client.ActivateTickets(ctx, req); return err })
			} else {
				req := &pb.DeactivateTicketsRequest{TicketIds: l}
				ok = call(rest, "DeactivateTickets", req, func() error { _, err := c.Client.DeactivateTickets(ctx, req); return err })
			}
			if ok {
				for _, id := range l {
					need(st25{from, kind, id, "", kind + " of " + id})
				}
			}
			done(ok)
			return ok
		}
		assign := func(rest bool, l []string, val string) {
			from := rd.LogLen()
			r := &pb.Roster{Assignment: &pb.Assignment{Connection: val}}
			for _, id := range l {
				r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
			}
			req := &pb.CreateAssignmentsRequest{AssignmentRoster: r}
			ok := call(rest, "CreateAssignments", req, func() error { _, err := c.Client.CreateAssignments(ctx, req); return err })
			if ok {
				for _, id := range l {
					need(st25{from, "assign", id, val, "assignment " + val + " of " + id})
				}
			}
			done(ok)
		}
		create := func(o *Op25) string {
			from := rd.LogLen()
			mark := fmt.Sprintf("m%d-%d", ri, o.Val)
			req := &pb.CreateTicketRequest{Ticket: (&TicketS{Tags: []string{"a"}, Str: map[string]string{"marker": mark}}).PB()}
			r, err := c.Client.CreateTicket(ctx, req)
			done(err == nil)
			if err != nil {
				return ""
			}
			need(st25{from, "ticket", r.GetTicketId(), mark, "creation of ticket " + r.GetTicketId()})
			return r.GetTicketId()
		}
		start := time.Now()
		var wg sync.WaitGroup
		for _, o := range s.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Until(start.Add(time.Duration(o.At) * time.Millisecond)))
				var l []string
				seen := map[int]bool{}
				for _, i := range o.Ids {
					if !seen[i] {
						seen[i] = true
						l = append(l, ids[i])
					}
				}
				switch o.Kind {
				case "create":
					create(o)
				case "life":
					id := create(o)
					if id != "" && act(o.Rest, "activate", []string{id}) && o.Val%2 == 0 {
						assign(o.Rest, []string{id}, fmt.Sprintf("v%d-%d", ri, o.Val))
					}
				case "activate", "deactivate":
					act(o.Rest, o.Kind, l)
				case "assign":
					assign(o.Rest, l, fmt.Sprintf("v%d-%d", ri, o.Val))
				case "watch":
					req := &pb.WatchAssignmentsRequest{TicketIds: append(l, fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 200000+o.Val))}
					if o.Rest {
						doRest(base, rpcByName("WatchAssignments"), toJSON18(req, 0), true, x.T(40*time.Second))
						return
					}
					st, err := c.Client.WatchAssignments(ctx, req)
					for err == nil {
						_, err = st.Recv()
					}
				case "invoke":
					from := rd.LogLen()
					req := &pb.MmfRequest{Profile: &pb.Profile{Name: fmt.Sprintf("%d %t", o.Ids[0], o.Hang), Pools: map[string]*pb.Pool{"all": {}}}, Mmfs: []*pb.MatchmakingFunctionSpec{mmf.Spec("f")}}
					if o.Rest {
						doRest(base, rpcByName("InvokeMatchmakingFunctions"), toJSON18(req, 0), true, x.T(40*time.Second))
						return
					}
					st, err := c.Client.InvokeMatchmakingFunctions(ctx, req)
					for err == nil {
						var m *pb.StreamedMmfResponse
						if m, err = st.Recv(); err == nil && cs.Wait && s.Fault == "" { // matches are returned even if storage refuses
							for _, r := range m.GetMatch().GetRosters() {
								for _, k := range r.GetTickets() {
									need(st25{from, "deactivate", k.GetId(), "", "deactivation of " + k.GetId() + ", contained in a returned match,"})
								}
							}
						}
					}
				}
			}()
		}
		time.Sleep(time.Until(start.Add(time.Duration(s.At) * time.Millisecond)))
		switch s.Fault {
		case "hang":
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "XADD" || k.Name == "XTRIM" {
					return Action{Kind: ActHang}
				}
				return Action{}
			})
		case "down":
			rd.Down(l, "down")
		}
		if s.Fault != "" {
			time.Sleep(3 * time.Millisecond)
		}
		c.mu.Lock()
		c.stopping = true
		c.mu.Unlock()
		sig := map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "KILL": syscall.SIGKILL}[s.Sig]
		select {
		case <-c.exited:
			c.mu.Lock()
			c.stopping = false
			c.mu.Unlock()
			cancel()
			if m, d := c.Crashed(); d {
				return bad("%s", m)
			}
		default:
		}
		c.cmd.Process.Signal(sig)
		if s.Twice {
			time.Sleep(time.Millisecond)
			c.cmd.Process.Signal(sig)
		}
		sent := time.Now()
		select {
		case <-c.exited:
		case <-time.After(x.T(12 * time.Second)):
			cancel()
			c.cmd.Process.Kill()
			<-c.exited
			return live("the server had not ended %v after SIG%s (storage: %q)", time.Since(sent), s.Sig, s.Fault)
		}
		if s.Sig != "KILL" {
			if st := c.cmd.ProcessState; !st.Success() {
				cancel()
				return bad("the server ended with %v after SIG%s: %s", st, s.Sig, tail(c.stderr.String(), 1500))
			}
		}
		// calls end when the server is gone
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(x.T(15 * time.Second)):
			cancel()
			return live("calls had not ended %v after the server had ended", time.Since(sent))
		}
		cancel()
		c.Conn.Close()
		rd.SetHook(nil)
		rd.ReleaseHang()
		if s.Fault == "down" {
			if err := rd.Up(l); err != nil {
				return R{Skip: err.Error()}
			}
		}
		// everything acknowledged is there; what arrives late from the dead server's connections still counts
		time.Sleep(time.Duration(s.Delay+5) * time.Millisecond)
		log := rd.LogCopy()
		for _, n := range must {
			found := false
			for i := n.from; i < len(log) && !found; i++ {
				f := log[i].Fields
				if len(f) < 2 || f[0] != n.kind {
					continue
				}
				switch n.kind {
				case "ticket":
					tk := &pb.Ticket{}
					found = log[i].ID() == n.key && proto.Unmarshal([]byte(f[1]), tk) == nil && tk.GetAttributes().GetStringArgs()["marker"] == n.val
				case "assign":
					a := &pb.Assignment{}
					found = f[1] == n.key && len(f) == 4 && proto.Unmarshal([]byte(f[3]), a) == nil && a.GetConnection() == n.val
				default:
					found = f[1] == n.key
				}
			}
			if !found {
				return bad("the %s was acknowledged, but after the server ended (SIG%s) it is not in state storage", n.what, s.Sig)
			}
		}
		must = must[:0]
		// a new instance, on the same port
		k, err := x.StartCore(env, cs.Bin)
		if err != nil {
			return R{Skip: "start: " + err.Error()}
		}
		k.Redis = rd
		k.SyncIDs = c.SyncIDs
		k.syncN = c.syncN + 10
		c = k
		if err := c.sync1(x.T(30 * time.Second)); err != nil {
			return badErr("after a restart", err)
		}
		cc, cn := rpcCtx(x)
		on, asg := fold25(rd.LogCopy())
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			cn()
			return badErr("query", err)
		}
		var want, have []string
		for id, v := range on {
			if v && !c.SyncIDs[id] {
				want = append(want, id)
			}
		}
		for _, t := range got["all"] {
			if !c.IsSync(t) {
				have = append(have, t.GetId())
			}
		}
		sort.Strings(want)
		sort.Strings(have)
		if !eqStrs(have, want) {
			cn()
			return bad("after SIG%s, a new instance's pool differs from the stored history: %s", s.Sig, diffStrs(have, want))
		}
		if len(asg) > 0 {
			var l []string
			for id := range asg {
				l = append(l, id)
			}
			st, err := c.Client.WatchAssignments(cc, &pb.WatchAssignmentsRequest{TicketIds: l})
			for i := 0; err == nil && i < len(l); i++ {
				var m *pb.StreamedWatchAssignmentsResponse
				if m, err = st.Recv(); err == nil && m.GetAssignment().GetConnection() != asg[m.GetId()] {
					cn()
					return bad("after SIG%s, a new instance gives %s the assignment %q; stored is %q", s.Sig, m.GetId(), m.GetAssignment().GetConnection(), asg[m.GetId()])
				}
			}
			if err != nil {
				cn()
				return badErr("WatchAssignments after a restart", err)
			}
		}
		r, err := c.Client.CreateTicket(cc, &pb.CreateTicketRequest{Ticket: (&TicketS{Tags: []string{"a"}}).PB()})
		if err == nil {
			_, err = c.Client.ActivateTickets(cc, &pb.ActivateTicketsRequest{TicketIds: []string{r.GetTicketId()}})
		}
		cn()
		if err != nil {
			return badErr("requests to a restarted instance", err)
		}
		res.Labels = append(res.Labels, s.Sig)
		if s.Fault != "" {
			res.Labels = append(res.Labels, "storage-"+s.Fault)
		}
	}
	res.Nontriv = acked > 0 && cut > 0
	if cut > 0 {
		res.Labels = append(res.Labels, "calls-in-flight")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C25",
		Rule:     "A case is up to three runs of an instance on one state storage: 3-40 concurrent calls (creations followed by activation and assignment, updates, watches, invocations of working and hanging functions; gRPC and REST) within 120 ms, with storage delays of 0-60 ms, and SIGTERM, SIGINT (once or twice) or SIGKILL at any moment, possibly just after storage began to hang or went away. Judged: every acknowledged update is in storage, the process ends soon and (unless killed) with status 0, all calls end, and an instance started on the same port afterwards shows exactly the stored history and serves requests. Non-trivial: calls were acknowledged and others were cut off.",
		Quick:    1200,
		Thorough: 12000,
		MaxSh:    32,
		New:      func() any { return &Case25{} },
		Gen:      genCase25,
		Run:      run25,
	})
}
