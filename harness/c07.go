package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C07: every instance applies all stored updates once and in order.

type E7 struct {
	K string // t: new ticket, T: N new active tickets, a, d: (de)activate I, s: assign I, j: junk
	I int    `json:",omitempty"`
	N int    `json:",omitempty"`
}

type Fault7 struct {
	Inst  int
	Kind  string // err, drop, after, partial, hang, down, closing
	Times int    // how many reads are hit (err, drop, after, partial)
	MS    int    // how long (hang, down, closing)
}

type Seg7 struct {
	By     int // -1: another writer; k: through the API of instance k
	Ops    []E7
	Faults []Fault7
	Start  []int // instances (re)started before the segment
	Sync   bool  // wait for replication after the segment
}

type Case7 struct {
	Bin  string
	N    int
	Max  []int // updates per poll
	InMS []int
	Segs []*Seg7
}

func genCase7(t *rapid.T) any {
	c := &Case7{Bin: pick(t, bins, "bin"), N: rapid.IntRange(1, 3).Draw(t, "inst")}
	// an instance that applies updates rarely, on a long history
	slow := rapid.IntRange(0, 39).Draw(t, "slow") == 23
	for i := 0; i < c.N; i++ {
		c.Max = append(c.Max, rapid.SampledFrom([]int{1, 2, 3, 7, 20, 10000}).Draw(t, "max"))
		ms := rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "inms")
		if slow {
			ms = rapid.SampledFrom([]int{300, 500, 700}).Draw(t, "slowms")
			c.Max[i] = rapid.SampledFrom([]int{30, 100, 20}).Draw(t, "slowmax")
		}
		c.InMS = append(c.InMS, ms)
	}
	n := 0
	started := map[int]bool{}
	nseg := rapid.IntRange(2, 6).Draw(t, "segs")
	for i := 0; i < nseg; i++ {
		s := &Seg7{By: rapid.IntRange(-1, c.N-1).Draw(t, "by"), Sync: rapid.IntRange(0, 1).Draw(t, "sync") == 0}
		for k := 0; k < c.N; k++ {
			if !started[k] && (i == nseg-1 || rapid.IntRange(0, 1).Draw(t, "st") == 0) || started[k] && rapid.IntRange(0, 7).Draw(t, "rst") == 0 {
				s.Start = append(s.Start, k)
				started[k] = true
			}
		}
		if s.By >= 0 && !started[s.By] {
			s.By = -1
		}
		for j := rapid.IntRange(0, 25).Draw(t, "nops"); j > 0; j-- {
			k := rapid.IntRange(0, 15).Draw(t, "k")
			switch {
			case n == 0 || k < 3:
				s.Ops = append(s.Ops, E7{K: "t"})
				n++
			case (k == 3 || slow && k > 12) && s.By < 0:
				m := rapid.SampledFrom([]int{5, 20, 100}).Draw(t, "bulk")
				s.Ops = append(s.Ops, E7{K: "T", N: m})
				n += m
			case k == 4 && s.By < 0:
				s.Ops = append(s.Ops, E7{K: "j"})
			case k == 5:
				s.Ops = append(s.Ops, E7{K: "s", I: rapid.IntRange(0, n-1).Draw(t, "i")})
			case k < 11:
				s.Ops = append(s.Ops, E7{K: "a", I: rapid.IntRange(0, n-1).Draw(t, "i")})
			default:
				s.Ops = append(s.Ops, E7{K: "d", I: rapid.IntRange(0, n-1).Draw(t, "i")})
			}
		}
		for f := rapid.IntRange(0, 2).Draw(t, "nf"); f > 0; f-- {
			s.Faults = append(s.Faults, Fault7{Inst: rapid.IntRange(0, c.N-1).Draw(t, "fi"),
				Kind:  pick(t, []string{"err", "drop", "after", "partial", "hang", "down", "closing", "reset", "garbage"}, "fk"),
				Times: rapid.IntRange(1, 4).Draw(t, "ft"), MS: rapid.IntRange(1, 40).Draw(t, "fms")})
		}
		c.Segs = append(c.Segs, s)
	}
	return c
}

type obs7 struct {
	active map[string]bool
	lower  int
	upper  int
}

type inst7 struct {
	c     *Core
	l     *listener
	mu    sync.Mutex
	obs   []obs7
	lower int
	stop  chan struct{}
	done  chan struct{}
	err   error
}

// observe polls the instance's pool until stopped.
func (in *inst7) observe(rd *FakeRedis) {
	defer close(in.done)
	q := in.c.NewQuerier()
	for {
		select {
		case <-in.stop:
			return
		default:
		}
		in.mu.Lock()
		lo := in.lower
		in.mu.Unlock()
		p, err := q.Pools(in.c, map[string]*pb.Pool{"all": {}})
		if err != nil {
			in.err = err
			return
		}
		o := obs7{active: map[string]bool{}, lower: lo, upper: rd.LogLen()}
		for _, t := range p["all"] {
			o.active[t.GetId()] = true
		}
		in.mu.Lock()
		in.obs = append(in.obs, o)
		in.mu.Unlock()
		time.Sleep(300 * time.Microsecond)
	}
}

// change points of every ticket: after log position P (number of entries applied) it is in state On.
type chg7 struct {
	P  int
	On bool
}

func fold7(log []*Entry) (map[string][]chg7, map[string]string) {
	ch := map[string][]chg7{}
	as := map[string]string{}
	ex := map[string]bool{}
	inact := map[string]bool{}
	for i, e := range log {
		if len(e.Fields) < 2 {
			continue
		}
		k := e.Fields[1]
		switch e.Fields[0] {
		case "ticket":
			k = e.ID()
			ex[k], inact[k] = true, true
		case "activate":
			inact[k] = false
		case "deactivate":
			inact[k] = true
		case "assign":
			if len(e.Fields) == 4 {
				as[k] = e.Fields[3]
			}
			continue
		default:
			continue
		}
		ch[k] = append(ch[k], chg7{i + 1, ex[k] && !inact[k]})
	}
	return ch, as
}

// earliest position in [lo,hi] at which the ticket's state is on.
func earliest7(ch []chg7, lo, hi int, on bool) (int, bool) {
	// state on [P_i, P_{i+1})
	prevP, prevOn := 0, false
	for i := 0; i <= len(ch); i++ {
		end := hi + 1
		if i < len(ch) {
			end = ch[i].P
		}
		if prevOn == on {
			a := max(prevP, lo)
			if a < end && a <= hi {
				return a, true
			}
		}
		if i < len(ch) {
			prevP, prevOn = ch[i].P, ch[i].On
		}
	}
	return 0, false
}

func run7(x *X, ci any) R {
	cs := ci.(*Case7)
	rd := NewFakeRedis()
	x.Defer(rd.Close)
	if !x.NS && cs.N > 1 {
		return R{Skip: "several instances need a network namespace"}
	}
	ins := make([]*inst7, cs.N)
	wls := make([]*listener, cs.N)
	var fm sync.Mutex
	var upErr error
	pend := map[*listener][]Action{}
	rd.SetHook(func(k *Cmd) Action {
		if k.Role != RoleRead || k.Name != "XREAD" {
			return Action{}
		}
		fm.Lock()
		defer fm.Unlock()
		if p := pend[k.L]; len(p) > 0 {
			pend[k.L] = p[1:]
			return p[0]
		}
		return Action{}
	})
	stopObs := func(in *inst7) {
		if in.stop != nil {
			close(in.stop)
			<-in.done
			in.stop = nil
		}
	}
	var ids []string
	lab := map[string]bool{}
	sawFault, late, restarts := false, false, 0
	check := func(in *inst7, k int, when string) *R {
		in.mu.Lock()
		obs := in.obs
		in.mu.Unlock()
		ch, _ := fold7(rd.LogCopy())
		cur := map[string]int{}
		for oi, o := range obs {
			all := map[string]bool{}
			for id := range ch {
				all[id] = true
			}
			for id := range o.active {
				all[id] = true
			}
			for id := range all {
				p, ok := earliest7(ch[id], max(cur[id], o.lower), o.upper, o.active[id])
				if !ok {
					r := bad("%s: instance %d, observation %d of %d: ticket %s active=%v, which is not its state at any point of the stored history between position %d (already shown or awaited) and %d (end); its changes: %v", when, k, oi, len(obs), id, o.active[id], max(cur[id], o.lower), o.upper, ch[id])
					return &r
				}
				cur[id] = p
			}
		}
		return nil
	}
	defer func() {
		for _, in := range ins {
			if in != nil {
				stopObs(in)
			}
		}
	}()
	// an update cycle applies a poll's worth of updates
	patience := func(k int) time.Duration {
		cycles := 3 + rd.LogLen()/cs.Max[k]
		return 30*time.Second + time.Duration(cycles*cs.InMS[k]*2)*time.Millisecond
	}
	compare := func(k int, when string) *R {
		in := ins[k]
		if err := in.c.sync1(x.T(patience(k))); err != nil {
			r := badErr(fmt.Sprintf("%s: instance %d does not catch up with the stored updates", when, k), err)
			return &r
		}
		got, err := in.c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			r := badErr("query", err)
			return &r
		}
		ch, as := fold7(rd.LogCopy())
		want := []string{}
		for id, c := range ch {
			if c[len(c)-1].On {
				want = append(want, id)
			}
		}
		// the sentinels of other instances are ordinary tickets here
		sort.Strings(want)
		g := []string{}
		for _, t := range got["all"] {
			g = append(g, t.GetId())
		}
		sort.Strings(g)
		if !eqStrs(g, want) {
			r := bad("%s: instance %d offers other tickets than the stored history gives: %s", when, k, diffStrs(g, want))
			return &r
		}
		if len(as) > 0 {
			ctx, cancel := context.WithTimeout(context.Background(), x.T(20*time.Second))
			defer cancel()
			ks := sortedKeys(as)
			st, err := in.c.Client.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ks})
			if err != nil {
				r := badErr("watch", err)
				return &r
			}
			for range ks {
				m, err := st.Recv()
				if err != nil {
					r := badErr(fmt.Sprintf("%s: instance %d: reading the stored assignments", when, k), err)
					return &r
				}
				w := &pb.Assignment{}
				proto.Unmarshal([]byte(as[m.GetId()]), w)
				if !proto.Equal(w, m.GetAssignment()) {
					r := bad("%s: instance %d: ticket %s has assignment %v, the last stored one is %v", when, k, m.GetId(), m.GetAssignment(), w)
					return &r
				}
			}
		}
		return nil
	}
	for si, s := range cs.Segs {
		for _, k := range s.Start {
			if ins[k] != nil {
				restarts++
				stopObs(ins[k])
				if r := check(ins[k], k, fmt.Sprintf("segment %d", si)); r != nil {
					return *r
				}
				ins[k].c.Kill()
			}
			l := (*listener)(nil)
			if ins[k] != nil {
				l = ins[k].l
			} else {
				var err error
				if len(ins) > 1 {
					x.In = x.NewNetNS()
				}
				if l, err = rd.ListenIn(x.In, "127.0.0.1:0", RoleRead); err != nil {
					panic(harnessErr{err})
				}
				if wls[k], err = rd.ListenIn(x.In, "127.0.0.1:0", RoleWrite); err != nil {
					panic(harnessErr{err})
				}
			}
			x.In = l.ns
			env := baseEnv()
			redisEnv(env, wls[k])
			e2 := map[string]string{}
			redisEnv(e2, l)
			env["OM_REDIS_READ_HOST"], env["OM_REDIS_READ_PORT"] = e2["OM_REDIS_READ_HOST"], e2["OM_REDIS_READ_PORT"]
			env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(cs.Max[k])
			env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.InMS[k])
			if rd.LogLen() > 0 {
				late = true
			}
			c, err := x.StartCore(env, cs.Bin)
			if err != nil {
				return R{Skip: "start: " + err.Error()}
			}
			c.Redis = rd
			in := &inst7{c: c, l: l, stop: make(chan struct{}), done: make(chan struct{})}
			ins[k] = in
			go in.observe(rd)
		}
		var wg sync.WaitGroup
		for _, f := range s.Faults {
			in := ins[f.Inst]
			if in == nil {
				continue
			}
			sawFault = true
			lab[f.Kind] = true
			kind := map[string]ActKind{"err": ActErr, "drop": ActDropBefore, "after": ActDropAfter, "partial": ActPartial, "hang": ActHang, "reset": ActReset, "garbage": ActGarbage}[f.Kind]
			switch f.Kind {
			case "down", "closing":
				wg.Add(1)
				go func() {
					defer wg.Done()
					fm.Lock() // one outage per listener at a time
					busy := in.l.mode != ""
					fm.Unlock()
					if busy {
						return
					}
					rd.Down(in.l, f.Kind)
					time.Sleep(time.Duration(f.MS) * time.Millisecond)
					if err := rd.Up(in.l); err != nil {
						fm.Lock()
						upErr = err
						fm.Unlock()
					}
				}()
			case "hang":
				fm.Lock()
				pend[in.l] = append(pend[in.l], Action{Kind: kind})
				fm.Unlock()
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(f.MS) * time.Millisecond)
					fm.Lock()
					p := pend[in.l]
					for i := range p {
						if p[i].Kind == ActHang {
							pend[in.l] = append(p[:i:i], p[i+1:]...)
							break
						}
					}
					fm.Unlock()
					rd.ReleaseHang()
				}()
			default:
				fm.Lock()
				for i := 0; i < f.Times; i++ {
					pend[in.l] = append(pend[in.l], Action{Kind: kind, Msg: "LOADING Redis is loading the dataset in memory"})
				}
				fm.Unlock()
			}
		}
		var cl pb.OpenMatchServiceClient
		if s.By >= 0 {
			cl = ins[s.By].c.Client
		}
		for oi, o := range s.Ops {
			ctx, cancel := rpcCtx(x)
			var err error
			switch {
			case o.K == "t" || o.K == "T":
				for j := 0; j < max(o.N, 1); j++ {
					if cl != nil {
						var r *pb.CreateTicketResponse
						r, err = cl.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
						ids = append(ids, r.GetTicketId())
						continue
					}
					tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: tsNow()}, ExpirationTime: tsAt(time.Now().Add(time.Hour))}
					id := rd.Add("ticket", string(mustMarshal(tk)))
					ids = append(ids, id)
					if o.K == "T" {
						rd.Add("activate", id)
					}
				}
			case o.K == "j":
				rd.Add("whatever", ids[0])
			case o.K == "s":
				a := &pb.Assignment{Connection: fmt.Sprintf("c-%d-%d", si, oi)}
				if cl != nil {
					_, err = cl.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: a, Tickets: []*pb.Ticket{{Id: ids[o.I]}}}})
				} else {
					rd.Add("assign", ids[o.I], "connection", string(mustMarshal(a)))
				}
			case o.K == "a":
				if cl != nil {
					_, err = cl.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{ids[o.I]}})
				} else {
					rd.Add("activate", ids[o.I])
				}
			case o.K == "d":
				if cl != nil {
					_, err = cl.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{ids[o.I]}})
				} else {
					rd.Add("deactivate", ids[o.I])
				}
			}
			cancel()
			if err != nil {
				return badErr(fmt.Sprintf("segment %d operation %d through instance %d", si, oi, s.By), err)
			}
		}
		wg.Wait()
		if upErr != nil {
			return R{Skip: "listener: " + upErr.Error()}
		}
		if s.Sync {
			for k, in := range ins {
				if in == nil {
					continue
				}
				pos := rd.LogLen()
				if err := in.c.sync1(x.T(patience(k))); err != nil {
					return badErr(fmt.Sprintf("after segment %d: instance %d does not catch up with the stored updates", si, k), err)
				}
				in.mu.Lock()
				in.lower = max(in.lower, pos)
				in.mu.Unlock()
			}
		}
	}
	nobs := 0
	for k, in := range ins {
		if in == nil {
			continue
		}
		stopObs(in)
		if in.err != nil {
			return badErr(fmt.Sprintf("polling instance %d", k), in.err)
		}
		nobs += len(in.obs)
		if r := check(in, k, "during the history"); r != nil {
			return *r
		}
		if r := compare(k, "at the end"); r != nil {
			return *r
		}
	}
	if late {
		lab["late-start"] = true
	}
	if restarts > 0 {
		lab["restart"] = true
	}
	if nobs > 20 {
		lab["observations>20"] = true
	}
	r := R{Nontriv: len(ids) > 1 && (sawFault || late) && rd.LogLen() > 8}
	for k := range lab {
		r.Labels = append(r.Labels, k)
	}
	return r
}

func init() {
	register(&Check{
		ID:       "C07",
		Rule:     "A case is 1-3 instances with poll sizes 1-10000, started and restarted at various points of a history of up to 150 updates written by another writer or through any instance, with read faults per instance (error replies, connections dropped before/after/inside a reply, hanging reads, outages). Every instance's pool is polled all along: each ticket's shown states must be explained by non-decreasing positions of the stored history, bounded below by what was already awaited; at the end pools and assignments equal the fold of the whole history. Non-trivial: more than 8 stored updates and a read fault or an instance started on an existing history.",
		Quick:    700,
		Thorough: 20000,
		New:      func() any { return &Case7{} },
		Gen:      genCase7,
		Run:      run7,
	})
}
