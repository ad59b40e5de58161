package main

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C20: the published metrics against the history of calls, at quiet points.

type Op20 struct {
	Kind string // create activate deactivate assign watch invoke malformed
	Rest bool   `json:",omitempty"`
	From int    `json:",omitempty"` // tickets: N of them from index From
	N    int    `json:",omitempty"`
	Junk int    `json:",omitempty"` // malformed ids added
	Unk  int    `json:",omitempty"` // ids no ticket has
	Life int    `json:",omitempty"` // ms a created ticket lives
	Act  bool   `json:",omitempty"` // and is activated
	Var  int    `json:",omitempty"`
	Fns  []*FnS `json:",omitempty"`
	Nam  []int  `json:",omitempty"` // names of the functions
	Stop int    `json:",omitempty"` // ms after which the caller goes away
	Gone bool   `json:",omitempty"` // by closing the connection
	At   int    `json:",omitempty"` // ms after the start of its phase, if parallel
}

type Phase20 struct {
	Par    bool
	Refuse bool // state storage refuses updates
	Ops    []*Op20
}

type Case20 struct {
	Bin    string
	Mem    bool
	Wait   bool
	Limit  int
	N      int
	Phases []*Phase20
}

var names20 = []string{"duel", "royale", "", "a \"quoted\\\" name", "é\nline", "duel2"}

func genOp20(t *rapid.T, c *Case20, par bool) *Op20 {
	o := &Op20{Kind: pick(t, []string{"activate", "create", "deactivate", "assign", "watch", "invoke", "invoke", "activate", "malformed"}, "kind")}
	o.Rest = rapid.IntRange(0, 3).Draw(t, "rest") == 3
	if par {
		o.At = rapid.SampledFrom([]int{0, 0, 1, 5, 20, 100}).Draw(t, "at")
	}
	o.Var = rapid.IntRange(0, 5).Draw(t, "var")
	ids := func() {
		switch rapid.IntRange(0, 9).Draw(t, "nk") {
		case 4:
			o.N = 0
		case 5:
			o.N = c.Limit + rapid.IntRange(0, 1).Draw(t, "over")
		default:
			o.N = rapid.IntRange(1, min(c.N, c.Limit)).Draw(t, "n")
		}
		o.N = min(o.N, c.N)
		o.From = rapid.IntRange(0, c.N-1).Draw(t, "from")
		if rapid.IntRange(0, 5).Draw(t, "jk") == 3 {
			o.Junk = rapid.IntRange(1, 3).Draw(t, "junk")
		}
		if rapid.IntRange(0, 4).Draw(t, "uk") == 3 && o.N < c.Limit {
			o.Unk = 1
		}
	}
	switch o.Kind {
	case "activate", "deactivate", "assign":
		ids()
	case "create":
		if rapid.IntRange(0, 2).Draw(t, "brief") == 1 {
			o.Var = 0
			o.Life = rapid.IntRange(50, 600).Draw(t, "life")
			o.Act = rapid.Bool().Draw(t, "act")
		}
	case "watch":
		o.N = rapid.IntRange(0, min(c.N, 8)).Draw(t, "n")
		o.From = rapid.IntRange(0, c.N-1).Draw(t, "from")
		if rapid.IntRange(0, 5).Draw(t, "jk") == 3 {
			o.Junk = 1
		}
		o.Stop = rapid.IntRange(200, 1500).Draw(t, "stop")
		o.Gone = !o.Rest && rapid.IntRange(0, 3).Draw(t, "gone") == 2
	case "invoke":
		for k := rapid.SampledFrom([]int{1, 2, 3, 1, 4, 0}).Draw(t, "nf"); k > 0; k-- {
			f := genFn(t, c.N, 6)
			for _, m := range f.M {
				m.Pad = min(m.Pad, 10000)
			}
			o.Fns = append(o.Fns, f)
			o.Nam = append(o.Nam, rapid.IntRange(0, len(names20)-1).Draw(t, "nam"))
		}
		if rapid.IntRange(0, 2).Draw(t, "leave") == 1 {
			o.Stop = rapid.SampledFrom([]int{30, 1, 5, 100, 200}).Draw(t, "stop")
			o.Gone = !o.Rest && rapid.IntRange(0, 3).Draw(t, "gone") == 2
			if len(o.Fns) > 0 {
				o.Fns[0].Wait += 120 // something still to come
				if n := len(o.Fns[0].M); n > 0 {
					m := *o.Fns[0].M[n-1]
					m.Wait += 120
					o.Fns[0].M[n-1] = &m
				}
			}
		}
	}
	return o
}

func genCase20(t *rapid.T) any {
	c := &Case20{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 2).Draw(t, "mem") == 2, Wait: rapid.IntRange(0, 3).Draw(t, "wait") == 3}
	c.Limit = rapid.SampledFrom([]int{500, 3, 20, 1}).Draw(t, "limit")
	c.N = rapid.SampledFrom([]int{8, 30, 1}).Draw(t, "n")
	if !c.Mem && rapid.IntRange(0, 4).Draw(t, "many") == 3 {
		c.N = 510
	}
	for p := rapid.IntRange(1, 4).Draw(t, "np"); p > 0; p-- {
		ph := &Phase20{Par: rapid.Bool().Draw(t, "par")}
		ph.Refuse = !c.Mem && rapid.IntRange(0, 5).Draw(t, "refuse") == 5
		for i := rapid.IntRange(1, 7).Draw(t, "no"); i > 0; i-- {
			ph.Ops = append(ph.Ops, genOp20(t, c, ph.Par))
		}
		c.Phases = append(c.Phases, ph)
	}
	return c
}

// iv is an interval of possible values.
type iv struct{ lo, hi float64 }

func (a iv) add(lo, hi int) iv { return iv{a.lo + float64(lo), a.hi + float64(hi)} }

const (
	mDur   = "om_core_rpc_duration_milliseconds_count"
	mErr   = "om_core_rpc_errors_total"
	mAct   = "om_core_ticket_activation_requests"
	mDeact = "om_core_ticket_deactivation_requests"
	mAsg   = "om_core_ticket_assignment"
	mMatch = "om_core_match_received_total"
	mWatch = "om_core_ticket_assigment_watch"

	mActive   = "om_core_cache_tickets_active"
	mInactive = "om_core_cache_tickets_inactive"
	mAsgs     = "om_core_cache_assignments"
)

func flat20(ss []Series) map[string]float64 {
	out := map[string]float64{}
	for _, s := range ss {
		switch s.Name {
		case mDur, mErr:
			out[s.Name+" rpc="+s.Labels["rpc"]] += s.Val
		case mMatch:
			out[fmt.Sprintf("%s mmf=%q", s.Name, s.Labels["mmf_name"])] += s.Val
		case mAct + "_count", mAct + "_sum", mDeact + "_count", mDeact + "_sum", mAsg + "_count", mAsg + "_sum", mWatch:
			out[s.Name] += s.Val
		}
	}
	return out
}

// gauges20 compares the gauges of the cache with the replicated updates.
func gauges20(ss []Series, log []*Entry, at time.Time) (wrong []string) {
	exp := map[string]time.Time{}
	in, asg := map[string]bool{}, map[string]bool{}
	for _, e := range log {
		if len(e.Fields) < 2 {
			continue
		}
		switch e.Fields[0] {
		case "ticket":
			t := &pb.Ticket{}
			if proto.Unmarshal([]byte(e.Fields[1]), t) == nil {
				exp[e.ID()] = t.GetExpirationTime().AsTime()
				in[e.ID()] = true
			}
		case "activate":
			delete(in, e.Fields[1])
		case "deactivate":
			in[e.Fields[1]] = true
		case "assign":
			asg[e.Fields[1]] = true
		}
	}
	var act, tin iv
	for id, t := range exp {
		n := iv{1, 1}
		if t.Before(at.Add(-time.Second)) {
			n = iv{0, 0} // a pass has dropped it
		} else if t.Before(at.Add(time.Second)) {
			n = iv{0, 1}
		}
		if in[id] {
			tin = iv{tin.lo + n.lo, 0}
		} else {
			act = iv{act.lo + n.lo, act.hi + n.hi}
		}
	}
	// the bookkeeping may outlive a ticket
	tin.hi = float64(len(in))
	for _, g := range []struct {
		name string
		v    iv
	}{{mActive, act}, {mInactive, tin}, {mAsgs, iv{float64(len(asg)), float64(len(asg))}}} {
		if v, ok := sumSeries(ss, g.name, "", ""); !ok || v < g.v.lo || v > g.v.hi {
			wrong = append(wrong, fmt.Sprintf("%s is %v; it should be %s", g.name, v, ivStr(g.v)))
		}
	}
	return
}

func run20(x *X, ci any) (res R) {
	cs := ci.(*Case20)
	if !x.NS {
		return R{Skip: "no network namespace of its own"}
	}
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_MAX_STATE_UPDATES_PER_CALL"] = fmt.Sprint(cs.Limit)
	if cs.Mem {
		cs.N = min(cs.N, cs.Limit) // activated in one call
	}
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	base := "http://127.0.0.1:58081"
	// what was counted so far, once it stays the same
	var base0 map[string]float64
	for i := 0; ; i++ {
		ss, err := c.Metrics()
		if err != nil {
			return badErr("metrics", err)
		}
		f := flat20(ss)
		if base0 != nil && fmt.Sprint(f) == fmt.Sprint(base0) {
			break
		}
		if i > 100 {
			return live("the metrics keep changing although nothing happens: %v", f)
		}
		base0 = f
		time.Sleep(40 * time.Millisecond)
	}
	var mu sync.Mutex
	want := map[string]iv{}
	add := func(k string, lo, hi int) {
		mu.Lock()
		want[k] = want[k].add(lo, hi)
		mu.Unlock()
	}
	calls, fails, cancelled, matches := 0, 0, 0, 0
	// call counts one call: began says that it certainly reached the server
	call := func(rpc string, reached bool, outcome int) { // 0 ok, 1 failed, 2 unknown
		lo := 1
		if !reached {
			lo = 0
		}
		add(mDur+" rpc="+rpc, lo, 1)
		switch outcome {
		case 0:
			add(mErr+" rpc="+rpc, 0, 0)
		case 1:
			add(mErr+" rpc="+rpc, 1, 1)
		case 2:
			add(mErr+" rpc="+rpc, 0, 1)
		}
		mu.Lock()
		calls++
		if outcome == 1 {
			fails++
		}
		if outcome == 2 {
			cancelled++
		}
		mu.Unlock()
	}
	hist := func(name string, outcome, n, extra int) {
		switch outcome {
		case 0:
			add(name+"_count", 1, 1)
			add(name+"_sum", n, n+extra)
		case 2:
			add(name+"_count", 0, 1)
			add(name+"_sum", 0, n+extra)
		default:
			add(name+"_count", 0, 0)
			add(name+"_sum", 0, 0)
		}
	}
	tmo := x.T(30 * time.Second)
	// unary makes a unary call and says how it ended
	unary := func(rpc string, rest bool, opt int, req proto.Message, f func(ctx context.Context) error) (codes.Code, *R) {
		if rest {
			g, err := doRest(base, rpcByName(rpc), toJSON18(req, opt), true, tmo)
			if err != nil {
				r := badErr(rpc+" over REST", err)
				return 0, &r
			}
			if g.http == 200 {
				return codes.OK, nil
			}
			if g.err == nil {
				return codes.Unknown, nil
			}
			return codes.Code(g.err.Code), nil
		}
		ctx, cancel := context.WithTimeout(context.Background(), tmo)
		defer cancel()
		err := f(ctx)
		if m, d := c.CrashedSoon(err); d {
			r := bad("%s: %s", rpc, m)
			return 0, &r
		}
		if ctx.Err() != nil {
			r := live("%s did not return", rpc)
			return 0, &r
		}
		return status.Code(err), nil
	}
	out := func(c codes.Code) int {
		if c == codes.OK {
			return 0
		}
		return 1
	}
	assigned := map[int]bool{}
	for _, ph := range cs.Phases {
		for _, o := range ph.Ops {
			for i := 0; i < o.N && o.Kind == "assign"; i++ {
				assigned[(o.From+i)%cs.N] = true
			}
		}
	}
	unk := time.Now().UnixMilli() - 1000
	tids := func(o *Op20) []string {
		var l []string
		for i := 0; i < o.N; i++ {
			l = append(l, ids[(o.From+i)%cs.N])
		}
		for i := 0; i < o.Junk; i++ {
			l = append(l, []string{"abc", "", "1-x"}[i%3])
		}
		for i := 0; i < o.Unk; i++ {
			l = append(l, fmt.Sprintf("%d-999%d", unk, o.Var))
		}
		return l
	}
	var runs []*fnRun
	do := func(o *Op20, refuse bool) *R {
		opt := o.Var
		switch o.Kind {
		case "malformed": // never becomes a call
			g, err := doRest(base, rpcByName([]string{"CreateTicket", "ActivateTickets", "CreateAssignments", "InvokeMatchmakingFunctions"}[o.Var%4]), []byte(`{"ticketIds": [`), true, tmo)
			if err != nil {
				r := badErr("malformed request over REST", err)
				return &r
			}
			if g.http == 200 {
				r := bad("a malformed body was accepted: %s", g.raw)
				return &r
			}
		case "create":
			req := &pb.CreateTicketRequest{Ticket: (&TicketS{Tags: []string{"a"}}).PB()}
			switch o.Var {
			case 4:
				req.Ticket = nil
			case 5:
				req.Ticket.Extensions = extPB(map[string]AnyS{"pad": {Type: "p", Val: make([]byte, 5<<20)}})
				if o.Rest {
					req.Ticket.Extensions = nil
				}
			}
			if refuse && o.Var < 4 {
				// create gives up only after a number of attempts: leave it out
				return nil
			}
			if o.Life > 0 {
				req.Ticket.ExpirationTime = timestamppb.New(time.Now().Add(time.Duration(o.Life) * time.Millisecond))
			}
			var id string
			code, r := unary("CreateTicket", o.Rest && o.Life == 0, opt, req, func(ctx context.Context) error {
				g, err := c.Client.CreateTicket(ctx, req)
				id = g.GetTicketId()
				return err
			})
			if r != nil {
				return r
			}
			call("CreateTicket", true, out(code))
			if o.Act && code == codes.OK {
				l := []string{id}
				code, r := unary("ActivateTickets", false, opt, nil, func(ctx context.Context) error {
					_, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
					return err
				})
				if r != nil {
					return r
				}
				call("ActivateTickets", true, out(code))
				hist(mAct, out(code), 1, 0)
			}
		case "activate", "deactivate":
			l := tids(o)
			name, m := "ActivateTickets", mAct
			if o.Kind == "deactivate" {
				name, m = "DeactivateTickets", mDeact
			}
			var req proto.Message = &pb.ActivateTicketsRequest{TicketIds: l}
			if o.Kind == "deactivate" {
				req = &pb.DeactivateTicketsRequest{TicketIds: l}
			}
			code, r := unary(name, o.Rest, opt, req, func(ctx context.Context) (err error) {
				if o.Kind == "activate" {
					_, err = c.Client.ActivateTickets(ctx, req.(*pb.ActivateTicketsRequest))
				} else {
					_, err = c.Client.DeactivateTickets(ctx, req.(*pb.DeactivateTicketsRequest))
				}
				return
			})
			if r != nil {
				return r
			}
			call(name, true, out(code))
			oc := out(code)
			if code != codes.OK && refuse && o.N+o.Unk > 0 && len(l) <= cs.Limit {
				oc = 2
			}
			hist(m, oc, o.N+o.Unk, o.Junk)
		case "assign":
			req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: fmt.Sprintf("c%d", o.From)}}}
			for _, id := range tids(o) {
				req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
			}
			switch o.Var {
			case 4:
				req.AssignmentRoster.Assignment = nil
			case 5:
				req.AssignmentRoster = nil
			}
			code, r := unary("CreateAssignments", o.Rest, opt, req, func(ctx context.Context) error {
				_, err := c.Client.CreateAssignments(ctx, req)
				return err
			})
			if r != nil {
				return r
			}
			call("CreateAssignments", true, out(code))
			oc := out(code)
			if code != codes.OK && o.Var < 4 && o.N+o.Junk+o.Unk <= cs.Limit && (refuse || o.Junk > 0) {
				oc = 2 // partly done
			}
			hist(mAsg, oc, o.N+o.Unk, o.Junk)
		case "watch":
			req := &pb.WatchAssignmentsRequest{TicketIds: tids(o)}
			lim := x.T(time.Duration(o.Stop) * time.Millisecond)
			// when its caller leaves, a watch for a ticket that is never assigned can only have failed
			left := 2
			if o.Junk > 0 {
				left = 1
			}
			for i := 0; i < o.N; i++ {
				if !assigned[(o.From+i)%cs.N] {
					left = 1
				}
			}
			if left == 1 {
				mu.Lock()
				res.Labels = append(res.Labels, "watch-left")
				mu.Unlock()
			}
			if o.Rest {
				g, err := doRest(base, rpcByName("WatchAssignments"), toJSON18(req, opt), true, lim)
				if err == nil && g.http == 200 && g.err == nil {
					call("WatchAssignments", true, 0)
				} else {
					call("WatchAssignments", true, left)
				}
				return nil
			}
			cl := c.Client
			var conn *grpc.ClientConn
			if o.Gone {
				var err error
				if conn, cl, err = c.NewConn(); err != nil {
					return &R{Skip: err.Error()}
				}
				defer conn.Close()
				time.AfterFunc(lim, func() { conn.Close() })
			}
			ctx, cancel := context.WithTimeout(context.Background(), lim)
			defer cancel()
			st, err := cl.WatchAssignments(ctx, req)
			for err == nil {
				_, err = st.Recv()
			}
			if m, d := c.CrashedSoon(err); d {
				r := bad("WatchAssignments: %s", m)
				return &r
			}
			switch {
			case err == io.EOF:
				call("WatchAssignments", true, 0)
			case ctx.Err() != nil || o.Gone:
				call("WatchAssignments", true, left)
			default:
				call("WatchAssignments", true, 1)
			}
		case "invoke":
			req := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}}
			var mine []*fnRun
			for i, f := range o.Fns {
				r := x.NewFn(names20[o.Nam[i]], f, ids)
				mine = append(mine, r)
				req.Mmfs = append(req.Mmfs, r.spec)
			}
			mu.Lock()
			runs = append(runs, mine...)
			mu.Unlock()
			lim := tmo
			if o.Stop > 0 {
				lim = x.T(time.Duration(o.Stop) * time.Millisecond)
			}
			outcome := 2
			if o.Rest {
				g, err := doRest(base, rpcByName("InvokeMatchmakingFunctions"), toJSON18(req, opt), true, lim)
				switch {
				case err != nil && o.Stop == 0:
					r := badErr("invocation over REST", err)
					return &r
				case err != nil:
				case g.http == 200 && g.err == nil:
					outcome = 0
				default:
					outcome = 3 // the gateway may also have failed to write a match as JSON
				}
			} else {
				cl := c.Client
				if o.Gone {
					conn, cl2, err := c.NewConn()
					if err != nil {
						return &R{Skip: err.Error()}
					}
					defer conn.Close()
					cl = cl2
					time.AfterFunc(lim, func() { conn.Close() })
				}
				ctx, cancel := context.WithTimeout(context.Background(), lim)
				defer cancel()
				st, err := cl.InvokeMatchmakingFunctions(ctx, req)
				for err == nil {
					_, err = st.Recv()
				}
				if m, d := c.CrashedSoon(err); d {
					r := bad("invocation: %s", m)
					return &r
				}
				switch {
				case err == io.EOF:
					outcome = 0
				case ctx.Err() != nil && o.Stop == 0:
					r := live("the invocation did not end")
					return &r
				case ctx.Err() != nil || o.Stop > 0 && o.Gone:
				default:
					outcome = 1
				}
			}
			began := outcome != 2
			end := time.Now().Add(x.T(300 * time.Millisecond))
			for !began && len(o.Fns) > 0 && time.Now().Before(end) {
				for _, r := range mine {
					r.mu.Lock()
					began = began || r.started > 0
					r.mu.Unlock()
				}
				time.Sleep(5 * time.Millisecond)
			}
			if outcome == 3 {
				outcome = 2
				if len(o.Fns) == 0 {
					outcome = 1
				}
			}
			call("InvokeMatchmakingFunctions", began, outcome)
		}
		return nil
	}
	for pi, ph := range cs.Phases {
		if rd != nil {
			refuse := ph.Refuse
			rd.SetHook(func(k *Cmd) Action {
				if refuse && k.Name == "XADD" {
					return Action{Kind: ActErr, Msg: "OOM command not allowed when used memory > 'maxmemory'."}
				}
				return Action{}
			})
		}
		rs := make([]*R, len(ph.Ops))
		if ph.Par {
			var wg sync.WaitGroup
			for i, o := range ph.Ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(o.At) * time.Millisecond)
					rs[i] = do(o, ph.Refuse)
				}()
			}
			wg.Wait()
		} else {
			for i, o := range ph.Ops {
				if rs[i] = do(o, ph.Refuse); rs[i] != nil {
					break
				}
			}
		}
		for _, r := range rs {
			if r != nil {
				return *r
			}
		}
		// quiet: the functions have ended
		end := time.Now().Add(x.T(20 * time.Second))
		for _, r := range runs {
			for {
				r.mu.Lock()
				idle := r.started == r.done
				r.mu.Unlock()
				if idle {
					break
				}
				if time.Now().After(end) {
					return live("a function had not ended 20 s after its invocation")
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		// what must be there now
		var miss string
		end = time.Now().Add(x.T(8 * time.Second))
		for {
			exp := map[string]iv{}
			mu.Lock()
			for k, v := range want {
				exp[k] = v
			}
			mu.Unlock()
			mtotal := 0
			for _, r := range runs {
				r.mu.Lock()
				k := fmt.Sprintf("%s mmf=%q", mMatch, r.spec.Name)
				lo := len(r.sent)
				hi := lo
				if r.f.End == "drop" || r.f.Kind == "rest" {
					lo = 0
				}
				mtotal += lo
				exp[k] = exp[k].add(lo, hi)
				r.mu.Unlock()
			}
			matches = mtotal
			exp[mWatch] = iv{0, 0}
			asked := time.Now()
			ss, err := c.Metrics()
			if err != nil {
				return badErr("metrics", err)
			}
			f := flat20(ss)
			var wrong []string
			for k, v := range f {
				if _, ok := exp[k]; !ok && v != base0[k] {
					wrong = append(wrong, fmt.Sprintf("%s went from %v to %v; nothing of it happened", k, base0[k], v))
				}
			}
			for k, v := range exp {
				if k == mWatch {
					if f[k] != 0 {
						wrong = append(wrong, fmt.Sprintf("%s is %v; no watch is open", k, f[k]))
					}
					continue
				}
				if d := f[k] - base0[k]; d < v.lo || d > v.hi {
					wrong = append(wrong, fmt.Sprintf("%s rose by %v; it should be %s", k, d, ivStr(v)))
				}
			}
			if rd != nil {
				wrong = append(wrong, gauges20(ss, rd.LogCopy(), asked)...)
			}
			sort.Strings(wrong)
			miss = strings.Join(wrong, "; ")
			if miss == "" {
				break
			}
			if time.Now().After(end) {
				return live("after phase %d: %s", pi, miss)
			}
			time.Sleep(15 * time.Millisecond)
		}
	}
	res.Nontriv = calls >= 2 && (matches > 0 || fails > 0)
	if fails > 0 {
		res.Labels = append(res.Labels, "failed-calls")
	}
	if cancelled > 0 {
		res.Labels = append(res.Labels, "cancelled-or-unknown")
	}
	if matches > 0 {
		res.Labels = append(res.Labels, "matches")
	}
	return res
}

func ivStr(v iv) string {
	if v.lo == v.hi {
		return fmt.Sprint(v.lo)
	}
	return fmt.Sprintf("%v to %v", v.lo, v.hi)
}

func init() {
	register(&Check{
		ID:       "C20",
		Rule:     "A case is 1-4 phases of 1-7 calls, in sequence or in parallel, over gRPC and REST: creations, activations, deactivations, assignments (valid, empty, over the limit, with malformed ids, without a roster, refused by state storage), watches and invocations whose callers stay, time out or disconnect, with 0-4 scripted functions (some sharing a name) that stream matches and end normally or not, and malformed REST bodies. After each phase /metrics is compared with the history (every series of calls, errors, activation, deactivation, assignment and match counts, and the watch gauge). Non-trivial: at least two calls and a match or a failed call.",
		Quick:    1200,
		Thorough: 8000,
		MaxSh:    16,
		New:      func() any { return &Case20{} },
		Gen:      genCase20,
		Run:      run20,
		Assume:   []string{"Invocations whose caller left early, and watches that could have ended by then, may or may not count as failed; calls with malformed or refused updates may or may not leave a sample.", "A quiet point is reached at most 8 s after the last call ended."},
	})
}
