package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C26: nobody holds up anybody else.

type Hog26 struct {
	Kind string
	N    int // how many of them
	Size int // KiB of what is sent
	At   int // ms
}

type Fn26 struct {
	Kind string // prompt hang refused blackhole noread late
	M    []int  `json:",omitempty"` // ms before each match
	K    int    `json:",omitempty"` // tickets per match
	Open bool   `json:",omitempty"` // it does not end after its last match
}

type Op26 struct {
	Kind string // life watch invoke metrics pool
	At   int
	Rest bool    `json:",omitempty"`
	Fns  []*Fn26 `json:",omitempty"`
	N    int     `json:",omitempty"`
}

type Case26 struct {
	Bin  string
	Mem  bool
	Wait bool
	N    int
	Hogs []*Hog26
	Ops  []*Op26
}

var hogs26 = []string{"caller-noread", "caller-noread-rest", "fn-hang", "fn-noread", "fn-blackhole", "watch", "watch-noread", "watch-rest", "slow-body", "tcp-idle", "cancelled-creates", "cancelled-updates", "many-updates"}

func genFn26(t *rapid.T, kinds []string) *Fn26 {
	f := &Fn26{Kind: pick(t, kinds, "fk")}
	if f.Kind == "prompt" || f.Kind == "late" {
		for k := rapid.IntRange(1, 5).Draw(t, "nm"); k > 0; k-- {
			f.M = append(f.M, rapid.SampledFrom([]int{0, 0, 1, 30, 150}).Draw(t, "mw"))
		}
		f.K = rapid.SampledFrom([]int{1, 2, 0, 10, 150}).Draw(t, "k")
		f.Open = rapid.IntRange(0, 2).Draw(t, "open") == 1
	}
	return f
}

func genCase26(t *rapid.T) any {
	c := &Case26{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 4).Draw(t, "mem") == 3, Wait: rapid.Bool().Draw(t, "wait")}
	c.N = rapid.SampledFrom([]int{12, 40, 3}).Draw(t, "n")
	for h := rapid.IntRange(0, 4).Draw(t, "nh"); h > 0; h-- {
		c.Hogs = append(c.Hogs, &Hog26{Kind: pick(t, hogs26, "hog"), N: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "hn"), Size: rapid.SampledFrom([]int{100, 1, 1000, 3000}).Draw(t, "hs"), At: rapid.SampledFrom([]int{0, 0, 20, 200}).Draw(t, "hat")})
	}
	for k := rapid.IntRange(1, 10).Draw(t, "no"); k > 0; k-- {
		o := &Op26{Kind: pick(t, []string{"life", "invoke", "invoke", "watch", "pool", "metrics"}, "kind"), At: rapid.IntRange(0, 400).Draw(t, "oat")}
		o.Rest = rapid.IntRange(0, 3).Draw(t, "rest") == 2
		o.N = rapid.IntRange(1, 5).Draw(t, "on")
		if o.Kind == "invoke" {
			o.Fns = append(o.Fns, genFn26(t, []string{"prompt"}))
			for n := rapid.IntRange(0, 4).Draw(t, "nf"); n > 0; n-- {
				o.Fns = append(o.Fns, genFn26(t, []string{"hang", "prompt", "refused", "blackhole", "noread", "late"}))
			}
			if p := rapid.IntRange(0, len(o.Fns)-1).Draw(t, "first"); p > 0 {
				o.Fns[0], o.Fns[p] = o.Fns[p], o.Fns[0]
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func pad26(kib int) map[string]*anypb.Any {
	a, _ := anypb.New(wrapperspb.Bytes(make([]byte, kib*1024)))
	return map[string]*anypb.Any{"pad": a}
}

func run26(x *X, ci any) (res R) {
	cs := ci.(*Case26)
	if !x.NS {
		return R{Skip: "no network namespace of its own"}
	}
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_MMF_TIMEOUT_SECS"] = "60"
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	_ = rd
	base := "http://127.0.0.1:58081"
	prompt := x.T(2 * time.Second)
	stop := make(chan struct{})
	var mu sync.Mutex
	var first *R
	fail := func(r R) {
		mu.Lock()
		if first == nil {
			first = &r
		}
		mu.Unlock()
	}
	label := func(l string) {
		mu.Lock()
		res.Labels = append(res.Labels, l)
		mu.Unlock()
	}
	// the case is torn down by ending the instance: what still hangs ends with it
	x.Defer(func() { close(stop) })
	var conns []io.Closer
	x.Defer(func() {
		mu.Lock()
		l := conns
		mu.Unlock()
		for _, k := range l {
			k.Close()
		}
	})
	keep := func(k io.Closer) {
		mu.Lock()
		conns = append(conns, k)
		mu.Unlock()
	}
	hang := func(s pb.MatchMakingFunctionService_RunServer) {
		select {
		case <-s.Context().Done():
		case <-stop:
		}
	}
	hangFn := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		if _, err := readChunks(s); err != nil {
			return err
		}
		hang(s)
		return nil
	})
	noread := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error { hang(s); return nil })
	bl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return R{Skip: err.Error()}
	}
	keep(bl)
	go func() {
		for {
			k, err := bl.Accept()
			if err != nil {
				return
			}
			keep(k) // says nothing
		}
	}()
	black := &pb.MatchmakingFunctionSpec{Name: "black", Type: pb.MatchmakingFunctionSpec_GRPC, Host: "127.0.0.1", Port: int32(bl.Addr().(*net.TCPAddr).Port)}
	refused := &pb.MatchmakingFunctionSpec{Name: "refused", Type: pb.MatchmakingFunctionSpec_GRPC, Host: "127.0.0.1", Port: int32(freePort())}
	flood := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		ch, err := readChunks(s)
		if err != nil || len(ch) == 0 {
			return err
		}
		var kib int
		fmt.Sscanf(ch[0].GetProfile().GetName(), "%d", &kib)
		ext := pad26(max(1, kib/10))
		for i := 0; i < 400; i++ {
			if err := s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: fmt.Sprint(i), Extensions: ext}}); err != nil {
				return err
			}
			select {
			case <-stop:
				return nil
			default:
			}
		}
		return nil
	})
	all := map[string]*pb.Pool{"all": {}}
	bg, cancelBg := context.WithCancel(context.Background())
	x.Defer(cancelBg)
	now := time.Now().UnixMilli()
	unknown := func(n, from int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%d-%d", now-1000, 500000+from+i))
		}
		return l
	}
	raw := func(addr, send string) {
		k, err := net.Dial("tcp", addr)
		if err != nil {
			return
		}
		if t, ok := k.(*net.TCPConn); ok {
			t.SetReadBuffer(4096)
		}
		keep(k)
		io.WriteString(k, send)
	}
	restRaw := func(path string, body []byte) {
		raw("127.0.0.1:58081", fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", path, len(body), body))
	}
	hog := func(h *Hog26, i int) {
		invoke := func(p *pb.Profile, specs ...*pb.MatchmakingFunctionSpec) {
			conn, cl, err := c.NewConn()
			if err != nil {
				return
			}
			keep(conn)
			if st, err := cl.InvokeMatchmakingFunctions(bg, &pb.MmfRequest{Profile: p, Mmfs: specs}); err == nil {
				_ = st // nothing is read
			}
		}
		switch h.Kind {
		case "caller-noread":
			invoke(&pb.Profile{Name: fmt.Sprint(h.Size), Pools: all}, flood.Spec("flood"))
		case "caller-noread-rest":
			restRaw("/v2/matches:fetch", toJSON18(&pb.MmfRequest{Profile: &pb.Profile{Name: fmt.Sprint(h.Size), Pools: all}, Mmfs: []*pb.MatchmakingFunctionSpec{flood.Spec("flood")}}, 0))
		case "fn-hang":
			invoke(&pb.Profile{Name: "h", Pools: all}, hangFn.Spec("hang"), hangFn.Spec("hang2"))
		case "fn-noread":
			invoke(&pb.Profile{Name: "h", Pools: all, Extensions: pad26(h.Size)}, noread.Spec("noread"))
		case "fn-blackhole":
			invoke(&pb.Profile{Name: "h", Pools: all}, black)
		case "watch":
			conn, cl, err := c.NewConn()
			if err != nil {
				return
			}
			keep(conn)
			cl.WatchAssignments(bg, &pb.WatchAssignmentsRequest{TicketIds: unknown(min(h.Size, 300), i*1000)})
		case "watch-rest":
			restRaw("/v2/tickets:watch", toJSON18(&pb.WatchAssignmentsRequest{TicketIds: unknown(min(h.Size, 300), i*1000)}, 0))
		case "watch-noread":
			cx, cn := context.WithTimeout(bg, 10*time.Second)
			defer cn()
			l := unknown(10, i*1000)
			r := &pb.Roster{Assignment: &pb.Assignment{Connection: "c", Extensions: pad26(min(h.Size, 1000) / 10)}}
			for _, id := range l {
				r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
			}
			c.Client.CreateAssignments(cx, &pb.CreateAssignmentsRequest{AssignmentRoster: r})
			conn, cl, err := c.NewConn()
			if err != nil {
				return
			}
			keep(conn)
			cl.WatchAssignments(bg, &pb.WatchAssignmentsRequest{TicketIds: l})
		case "slow-body":
			raw("127.0.0.1:58081", "POST /v2/tickets HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\"ticket\":")
		case "tcp-idle":
			raw(fmt.Sprintf("127.0.0.1:%s", env["PORT"]), []string{"", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"}[i%2])
			raw("127.0.0.1:58081", []string{"", "POST /v2/tick"}[i%2])
		case "cancelled-creates":
			for k := 0; k < 10; k++ {
				cx, cn := context.WithTimeout(bg, time.Duration(k)*time.Millisecond)
				c.Client.CreateTicket(cx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Extensions: pad26(min(h.Size, 300))}})
				cn()
			}
		case "cancelled-updates":
			for k := 0; k < 5; k++ {
				cx, cn := context.WithTimeout(bg, time.Duration(1+k)*time.Millisecond)
				c.Client.ActivateTickets(cx, &pb.ActivateTicketsRequest{TicketIds: unknown(40, i*1000)})
				cn()
			}
		case "many-updates":
			cx, cn := context.WithTimeout(bg, 20*time.Second)
			defer cn()
			c.Client.DeactivateTickets(cx, &pb.DeactivateTicketsRequest{TicketIds: unknown(200, i*1000)})
		}
	}
	// timed makes a call that must end soon.
	timed := func(what string, f func(ctx context.Context) error) bool {
		ctx, cancel := context.WithTimeout(context.Background(), prompt)
		defer cancel()
		err := f(ctx)
		if err == nil {
			return true
		}
		if m, d := c.CrashedSoon(err); d {
			fail(bad("%s: %s", what, m))
		} else if ctx.Err() != nil {
			fail(live("%s did not end within %v", what, prompt))
		} else {
			fail(badErr(what, err))
		}
		return false
	}
	un := func(what string, rest bool, rpc string, req, resp proto.Message, f func(ctx context.Context) (proto.Message, error)) bool {
		return timed(what, func(ctx context.Context) error {
			if rest {
				g, err := doRest(base, rpcByName(rpc), toJSON18(req, 0), true, prompt)
				if err != nil {
					return err
				}
				if g.http != 200 {
					return fmt.Errorf("HTTP %d: %s", g.http, head(g.raw, 300))
				}
				if len(g.msgs) != 1 {
					return fmt.Errorf("%d responses", len(g.msgs))
				}
				proto.Merge(resp, g.msgs[0])
				return nil
			}
			r, err := f(ctx)
			if err == nil {
				proto.Merge(resp, r)
			}
			return err
		})
	}
	relayed := 0
	op := func(o *Op26) {
		switch o.Kind {
		case "metrics":
			timed("reading the metrics", func(ctx context.Context) error {
				ch := make(chan error, 1)
				go func() { _, err := c.Metrics(); ch <- err }()
				select {
				case err := <-ch:
					return err
				case <-ctx.Done():
					return ctx.Err()
				}
			})
		case "life", "pool":
			creq := &pb.CreateTicketRequest{Ticket: (&TicketS{Tags: []string{"a"}}).PB()}
			cr := &pb.CreateTicketResponse{}
			if !un("CreateTicket", o.Rest, "CreateTicket", creq, cr, func(ctx context.Context) (proto.Message, error) { return c.Client.CreateTicket(ctx, creq) }) {
				return
			}
			areq := &pb.ActivateTicketsRequest{TicketIds: []string{cr.GetTicketId()}}
			if !un("ActivateTickets", o.Rest, "ActivateTickets", areq, &pb.ActivateTicketsResponse{}, func(ctx context.Context) (proto.Message, error) { return c.Client.ActivateTickets(ctx, areq) }) {
				return
			}
			if o.Kind == "pool" {
				q := x.NewQuerier()
				end := time.Now().Add(prompt)
				for {
					got, err := q.Pools(c, all)
					if err != nil {
						fail(badErr("an invocation of a prompt function", err))
						return
					}
					for _, t := range got["all"] {
						if t.GetId() == cr.GetTicketId() {
							return
						}
					}
					if time.Now().After(end) {
						fail(live("a ticket is in no pool %v after it was activated", prompt))
						return
					}
				}
			}
			dreq := &pb.DeactivateTicketsRequest{TicketIds: []string{cr.GetTicketId()}}
			un("DeactivateTickets", o.Rest, "DeactivateTickets", dreq, &pb.DeactivateTicketsResponse{}, func(ctx context.Context) (proto.Message, error) { return c.Client.DeactivateTickets(ctx, dreq) })
		case "watch":
			l := unknown(o.N, 700000+o.At*1000)
			r := &pb.Roster{Assignment: &pb.Assignment{Connection: "here"}}
			for _, id := range l {
				r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
			}
			req := &pb.CreateAssignmentsRequest{AssignmentRoster: r}
			if !un("CreateAssignments", o.Rest, "CreateAssignments", req, &pb.CreateAssignmentsResponse{}, func(ctx context.Context) (proto.Message, error) { return c.Client.CreateAssignments(ctx, req) }) {
				return
			}
			timed("WatchAssignments of assigned tickets", func(ctx context.Context) error {
				st, err := c.Client.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: l})
				for err == nil {
					_, err = st.Recv()
				}
				if err == io.EOF {
					return nil
				}
				return err
			})
		case "invoke":
			sent := map[string]time.Time{}
			endless := false
			var specs []*pb.MatchmakingFunctionSpec
			held := make(chan struct{}) // closed when the prompt functions' matches have arrived
			for fi, f := range o.Fns {
				switch f.Kind {
				case "hang":
					specs = append(specs, hangFn.Spec("h"))
					endless = true
				case "refused":
					specs = append(specs, refused)
					// its connection is not given up before the function timeout
				case "blackhole":
					specs = append(specs, black)
					endless = true
				case "noread":
					specs = append(specs, noread.Spec("n"))
					endless = true
				default:
					if f.Open || f.Kind == "late" {
						endless = true
					}
					m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
						if _, err := readChunks(s); err != nil {
							return err
						}
						if f.Kind == "late" {
							// its matches come after those of the others
							select {
							case <-held:
							case <-s.Context().Done():
								return nil
							case <-stop:
								return nil
							}
						}
						for i, w := range f.M {
							time.Sleep(time.Duration(w) * time.Millisecond)
							mt := &pb.Match{Id: fmt.Sprintf("%d-%d", fi, i), Rosters: map[string]*pb.Roster{"r": {}}}
							for k := 0; k < f.K; k++ {
								mt.Rosters["r"].Tickets = append(mt.Rosters["r"].Tickets, &pb.Ticket{Id: ids[(i+k)%len(ids)]})
							}
							mu.Lock()
							sent[mt.Id] = time.Now()
							mu.Unlock()
							if err := s.Send(&pb.StreamedMmfResponse{Match: mt}); err != nil {
								return err
							}
						}
						if f.Open || f.Kind == "late" {
							hang(s)
						}
						return nil
					})
					specs = append(specs, m.Spec(fmt.Sprint("f", fi)))
				}
			}
			want := map[string]bool{}
			for fi, f := range o.Fns {
				for i := range f.M {
					want[fmt.Sprintf("%d-%d", fi, i)] = f.Kind == "late"
				}
			}
			rest := len(want)
			early := 0
			for _, late := range want {
				if !late {
					early++
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			req := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}, Mmfs: specs}
			type arr struct {
				m   *pb.Match
				err error
			}
			got := make(chan arr, 1000)
			if o.Rest {
				go func() {
					hr, err := http.NewRequestWithContext(ctx, "POST", base+"/v2/matches:fetch", strings.NewReader(string(toJSON18(req, 0))))
					if err != nil {
						got <- arr{nil, err}
						return
					}
					hr.Header.Set("Content-Type", "application/json")
					resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}}).Do(hr)
					if err != nil {
						got <- arr{nil, err}
						return
					}
					defer resp.Body.Close()
					restMatches26(resp.Body, func(m *pb.Match, err error) { got <- arr{m, err} })
				}()
			} else {
				go func() {
					st, err := c.Client.InvokeMatchmakingFunctions(ctx, req, grpc.MaxCallRecvMsgSize(64<<20))
					for err == nil {
						var r *pb.StreamedMmfResponse
						if r, err = st.Recv(); err == nil {
							got <- arr{r.GetMatch(), nil}
						}
					}
					got <- arr{nil, err}
				}()
			}
			start := time.Now()
			for {
				if early == 0 {
					early = -1
					close(held)
					start = time.Now()
				}
				if rest == 0 && endless {
					break
				}
				var a arr
				select {
				case a = <-got:
				case <-time.After(20 * time.Millisecond):
					// what is overdue
					var over []string
					mu.Lock()
					for id := range want {
						if t, ok := sent[id]; ok && time.Since(t) > prompt {
							over = append(over, fmt.Sprintf("%s, sent %v ago", id, time.Since(t).Round(time.Millisecond)))
						}
					}
					none := len(sent) == 0 && time.Since(start) > prompt
					mu.Unlock()
					if len(over) > 0 {
						sort.Strings(over)
						fail(live("matches have not been relayed yet: %v; functions %v", over, kinds26(o)))
						return
					}
					if none {
						fail(live("functions were not called within %v; functions %v", prompt, kinds26(o)))
						return
					}
					if rest == 0 && !endless && time.Since(start) > 2*prompt {
						fail(live("an invocation of functions that have ended has not ended after %v", 2*prompt))
						return
					}
					if time.Since(start) > 4*prompt {
						mu.Lock()
						n := len(sent)
						mu.Unlock()
						fail(live("after %v an invocation has got %d of %d matches, %d of which were sent; functions %v", time.Since(start), len(want)-rest, len(want), n, kinds26(o)))
						return
					}
					continue
				}
				if a.err != nil {
					if a.err == io.EOF && rest == 0 {
						break
					}
					if m, d := c.CrashedSoon(a.err); d {
						fail(bad("invocation: %s", m))
					} else {
						fail(badErr(fmt.Sprintf("an invocation that still owes %d of %d matches, functions %v,", rest, len(want), kinds26(o)), a.err))
					}
					return
				}
				id := a.m.GetId()
				late, ok := want[id]
				if !ok {
					fail(bad("match %q was not sent or relayed twice", id))
					return
				}
				delete(want, id)
				rest--
				if !late {
					early--
				}
				mu.Lock()
				relayed++
				mu.Unlock()
			}
			if endless {
				label("relayed-before-end")
			}
		}
	}
	var wg sync.WaitGroup
	lag := newLag26()
	defer lag.stop()
	start := time.Now()
	for _, h := range cs.Hogs {
		label(h.Kind)
		for i := 0; i < h.N; i++ {
			go func() {
				time.Sleep(time.Until(start.Add(time.Duration(h.At) * time.Millisecond)))
				hog(h, i)
			}()
		}
	}
	for _, o := range cs.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(start.Add(time.Duration(o.At) * time.Millisecond)))
			op(o)
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	if first != nil {
		if slow := lag.stop(); first.Live && slow > 250*time.Millisecond {
			return R{Skip: "the machine is overloaded"}
		}
		return *first
	}
	if m, d := c.Crashed(); d {
		return bad("%s", m)
	}
	res.Nontriv = len(cs.Hogs) > 0 && len(cs.Ops) > 1 && relayed > 0
	return res
}

// lag26 measures how late this process itself is woken up.
type lag26 struct {
	once sync.Once
	end  chan struct{}
	max  chan time.Duration
	got  time.Duration
}

func newLag26() *lag26 {
	l := &lag26{end: make(chan struct{}), max: make(chan time.Duration, 1)}
	go func() {
		var m time.Duration
		for {
			t := time.Now()
			select {
			case <-l.end:
				l.max <- m
				return
			case <-time.After(5 * time.Millisecond):
				m = max(m, time.Since(t)-5*time.Millisecond)
			}
		}
	}()
	return l
}

func (l *lag26) stop() time.Duration {
	l.once.Do(func() { close(l.end); l.got = <-l.max })
	return l.got
}

func kinds26(o *Op26) (l []string) {
	for _, f := range o.Fns {
		l = append(l, f.Kind)
	}
	return
}

// restMatches26 reports the matches of a streamed REST response as they arrive.
func restMatches26(b io.Reader, f func(*pb.Match, error)) {
	d := json.NewDecoder(b)
	for {
		var m struct {
			Result json.RawMessage `json:"result"`
			Error  json.RawMessage `json:"error"`
		}
		err := d.Decode(&m)
		if err == nil && m.Error != nil {
			err = fmt.Errorf("%s", m.Error)
		}
		if err != nil {
			f(nil, err)
			return
		}
		r := &pb.StreamedMmfResponse{}
		if err := protojson.Unmarshal(m.Result, r); err != nil {
			f(nil, err)
			return
		}
		f(r.GetMatch(), nil)
	}
}

func init() {
	register(&Check{
		ID:       "C26",
		Rule:     "A case is up to four kinds of inconsiderate peers, 1-8 of each (callers that never read the matches of a flooding function over gRPC or REST, invocations of functions that hang, never read their request or never answer the connection, watches that are not read or wait for many tickets, unfinished REST requests, idle connections, cancelled creations and updates, large updates), and meanwhile 1-10 prompt calls: lives of tickets, assignments and watches, pools, metrics, and invocations that mix prompt functions with hanging, unreachable, unread and late ones. Judged: every prompt call ends and every match arrives within 2 s. Non-trivial: there were inconsiderate peers and matches were relayed.",
		Quick:    700,
		Thorough: 8000,
		MaxSh:    8,
		New:      func() any { return &Case26{} },
		Gen:      genCase26,
		Run:      run26,
		Assume:   []string{"Prompt means within 2 s (6 s when a failure is repeated), on a machine that otherwise takes milliseconds."},
	})
}
