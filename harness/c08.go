package main

import (
	"fmt"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C08: sustained load and storage faults never wedge the service.

type Phase8 struct {
	Kind  string // load, err, drop, after, partial, reset, garbage, hang, down, closing, auth, idle
	On    string // w, r, rw: which side is hit
	MS    int    // duration of the fault
	Times int    // number of commands hit (err, drop, after, partial)
	Par   int    // concurrent callers
	Calls int    // calls per caller
	Size  int    // ids per (de)activation call
}

type Case8 struct {
	Bin    string
	Sep    bool // separate read and write addresses
	Active int
	Idle   int
	Batch  int
	InMS   int
	InMax  int
	IdleTO bool
	Phases []*Phase8
}

func genCase8(t *rapid.T) any {
	c := &Case8{Bin: pick(t, bins, "bin"), Sep: rapid.Bool().Draw(t, "sep")}
	c.Active = rapid.SampledFrom([]int{1, 2, 3, 5, 500}).Draw(t, "active")
	c.Idle = rapid.SampledFrom([]int{500, 1, 2}).Draw(t, "idle")
	c.Batch = rapid.SampledFrom([]int{50, 1, 3}).Draw(t, "batch")
	c.InMS = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "inms")
	c.InMax = rapid.SampledFrom([]int{10000, 5, 1}).Draw(t, "inmax")
	for i := rapid.IntRange(2, 7).Draw(t, "nph"); i > 0; i-- {
		p := &Phase8{Kind: pick(t, []string{"load", "load", "err", "drop", "after", "partial", "hang", "down", "closing", "auth", "err", "drop", "reset", "reset", "garbage"}, "kind")}
		if rapid.IntRange(0, 39).Draw(t, "idlep") == 27 {
			p.Kind = "idle"
			c.IdleTO = true
		}
		p.On = pick(t, []string{"rw", "w", "r"}, "on")
		p.MS = rapid.IntRange(1, 60).Draw(t, "ms")
		p.Times = rapid.SampledFrom([]int{1, 2, 4, 8, 15}).Draw(t, "times")
		p.Par = rapid.IntRange(1, 6).Draw(t, "par")
		p.Calls = rapid.IntRange(1, 12).Draw(t, "calls")
		p.Size = rapid.SampledFrom([]int{1, 1, 3, 30}).Draw(t, "size")
		c.Phases = append(c.Phases, p)
	}
	return c
}

func run8(x *X, ci any) R {
	cs := ci.(*Case8)
	rd := NewFakeRedis()
	rd.User, rd.Pass = "u", "p"
	x.Defer(rd.Close)
	var ls []*listener
	env := baseEnv()
	if cs.Sep {
		wl, err1 := rd.Listen("127.0.0.1:0", RoleWrite)
		rl, err2 := rd.Listen("127.0.0.1:0", RoleRead)
		if err1 != nil || err2 != nil {
			return R{Skip: "listen"}
		}
		redisEnv(env, wl)
		e2 := map[string]string{}
		redisEnv(e2, rl)
		env["OM_REDIS_READ_HOST"], env["OM_REDIS_READ_PORT"] = e2["OM_REDIS_READ_HOST"], e2["OM_REDIS_READ_PORT"]
		ls = []*listener{wl, rl}
	} else {
		l, err := rd.Listen("127.0.0.1:0", RoleRW)
		if err != nil {
			return R{Skip: "listen"}
		}
		redisEnv(env, l)
		ls = []*listener{l}
	}
	for _, k := range []string{"READ", "WRITE"} {
		env["OM_REDIS_"+k+"_USER"], env["OM_REDIS_"+k+"_PASSWORD"] = "u", "p"
	}
	env["OM_REDIS_POOL_MAX_ACTIVE"] = fmt.Sprint(cs.Active)
	env["OM_REDIS_POOL_MAX_IDLE"] = fmt.Sprint(cs.Idle)
	if cs.IdleTO {
		env["OM_REDIS_POOL_IDLE_TIMEOUT"] = "1s"
	}
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Batch)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.InMS)
	env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(cs.InMax)
	c, err := x.StartCore(env, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	limit := func(l *listener) int {
		if cs.Sep {
			return cs.Active
		}
		return 2 * cs.Active // one pool per direction
	}
	overLimit := func(when string) *R {
		for _, l := range ls {
			over := 0
			var n int
			for k := 0; k < 4; k++ { // closing connections may overlap with new ones for a moment
				n, _, _ = rd.ConnStats(l)
				if n > limit(l) {
					over++
					time.Sleep(x.T(60 * time.Millisecond))
				}
			}
			if over == 4 {
				r := bad("%s: %d connections to the state storage are open, the pools' limit is %d", when, n, limit(l))
				return &r
			}
		}
		return nil
	}
	// calls makes requests; in a quiet phase each has to succeed.
	calls := func(p *Phase8, quiet bool, when string) *R {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var first *R
		fail := func(r R) {
			mu.Lock()
			if first == nil {
				first = &r
			}
			mu.Unlock()
		}
		for g := 0; g < p.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < p.Calls; k++ {
					ctx, cancel := rpcCtx(x)
					r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
					if err == nil {
						ids := make([]string, p.Size)
						for i := range ids {
							ids[i] = r.GetTicketId()
						}
						if k%2 == 0 {
							_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
						} else {
							_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
						}
					}
					late := ctx.Err() != nil
					cancel()
					if m, d := c.CrashedSoon(err); d {
						fail(bad("%s: %s", when, m))
						return
					}
					if late {
						fail(live("%s: a request is not answered: %v", when, err))
						return
					}
					if err != nil && quiet {
						fail(bad("%s: a request failed: %v", when, err))
						return
					}
				}
			}()
		}
		wg.Wait()
		return first
	}
	recover_ := func(when string) *R {
		// connections that broke during the fault may still be used once each
		okRow := 0
		var last error
		end := time.Now().Add(x.T(20 * time.Second))
		for okRow < 5 {
			ctx, cancel := rpcCtx(x)
			_, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
			cancel()
			if m, d := c.CrashedSoon(err); d {
				r := bad("%s: %s", when, m)
				return &r
			}
			if err == nil {
				okRow++
				continue
			}
			last, okRow = err, 0
			if time.Now().After(end) {
				r := live("%s: requests keep failing after the fault has ended: %v", when, last)
				return &r
			}
			time.Sleep(2 * time.Millisecond)
		}
		if err := c.sync1(x.T(20 * time.Second)); err != nil {
			r := badErr(when+": updates do not replicate any more after the fault has ended", err)
			return &r
		}
		return nil
	}
	lab := map[string]bool{}
	if r := recover_("at the start"); r != nil {
		return *r
	}
	before := map[*listener]int{}
	for _, l := range ls {
		before[l], _, _ = rd.ConnStats(l)
	}
	nf := 0
	for i, p := range cs.Phases {
		when := fmt.Sprintf("phase %d (%s on %s)", i, p.Kind, p.On)
		lab[p.Kind] = true
		hit := func(k *Cmd) bool {
			read := k.Name == "XREAD"
			return p.On == "rw" || read == (p.On == "r")
		}
		target := ls
		if cs.Sep && p.On == "w" {
			target = ls[:1]
		} else if cs.Sep && p.On == "r" {
			target = ls[1:]
		}
		var mu sync.Mutex
		n := 0
		times := func(a Action) {
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "AUTH" || !hit(k) {
					return Action{}
				}
				mu.Lock()
				defer mu.Unlock()
				n++
				if n > p.Times {
					return Action{}
				}
				return a
			})
		}
		var r *R
		switch p.Kind {
		case "load":
			r = calls(p, true, when)
		case "idle":
			time.Sleep(1200 * time.Millisecond)
			r = calls(p, true, when)
		case "err", "drop", "after", "partial", "reset", "garbage":
			times(Action{Kind: map[string]ActKind{"err": ActErr, "drop": ActDropBefore, "after": ActDropAfter, "partial": ActPartial, "reset": ActReset, "garbage": ActGarbage}[p.Kind], Msg: "ERR injected"})
			r = calls(p, false, when)
			time.Sleep(time.Duration(p.MS) * time.Millisecond / 4)
		case "hang":
			times(Action{Kind: ActHang})
			done := make(chan struct{})
			go func() {
				time.Sleep(time.Duration(p.MS) * time.Millisecond)
				for {
					rd.SetHook(nil)
					rd.ReleaseHang()
					select {
					case <-done:
						return
					case <-time.After(time.Millisecond):
					}
				}
			}()
			r = calls(p, false, when)
			time.Sleep(time.Duration(p.MS) * time.Millisecond / 2)
			close(done)
			rd.ReleaseHang()
		case "down", "closing":
			for _, l := range target {
				rd.Down(l, p.Kind)
			}
			r = calls(p, false, when)
			time.Sleep(time.Duration(p.MS) * time.Millisecond)
			for _, l := range target {
				if err := rd.Up(l); err != nil {
					return R{Skip: err.Error()}
				}
			}
		case "auth":
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "AUTH" {
					return Action{Kind: ActErr, Msg: "WRONGPASS invalid username-password pair or user is disabled."}
				}
				return Action{}
			})
			for _, l := range target {
				rd.DropConns(l)
			}
			r = calls(p, false, when)
			time.Sleep(time.Duration(p.MS) * time.Millisecond)
		}
		rd.SetHook(nil)
		rd.ReleaseHang()
		if r != nil {
			return *r
		}
		if p.Kind != "load" && p.Kind != "idle" {
			nf++
		}
		if r := recover_("after " + when); r != nil {
			return *r
		}
		if r := overLimit("after " + when); r != nil {
			return *r
		}
	}
	// no growth with the number of polls and updates
	polls := func() int {
		s := 0
		for _, l := range ls {
			s += rd.Counts(l)["XREAD"]
		}
		return s
	}
	from := polls()
	end := time.Now().Add(x.T(20 * time.Second))
	for polls() < from+40 {
		ctx, cancel := rpcCtx(x)
		_, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		cancel()
		if err != nil {
			if m, d := c.CrashedSoon(err); d {
				return bad("at the end: %s", m)
			}
			return badErr("at the end: a request failed", err)
		}
		if time.Now().After(end) {
			return live("the storage is not polled any more")
		}
	}
	for _, l := range ls {
		n, _, _ := rd.ConnStats(l)
		if n > before[l]+30 {
			time.Sleep(x.T(200 * time.Millisecond))
			if n, _, _ = rd.ConnStats(l); n > before[l]+30 {
				return bad("the number of connections to the state storage grew from %d to %d over %d polls and %d stored updates", before[l], n, polls(), rd.LogLen())
			}
		}
	}
	if r := overLimit("at the end"); r != nil {
		return *r
	}
	r := R{Nontriv: nf > 0 && rd.LogLen() > 20}
	if cs.Active <= 5 {
		lab["small-pool"] = true
	}
	for k := range lab {
		r.Labels = append(r.Labels, k)
	}
	return r
}

func init() {
	register(&Check{
		ID:       "C08",
		Rule:     "A case is a pool configuration (limits 1-500, separate or common read and write address, authentication) and 2-7 phases: load by 1-6 concurrent callers, or a storage fault on the read or write side under load (error replies, connections dropped before/after/inside replies or reset, replies that are none, hanging commands, outages, refused authentication, idle connections closed). After every phase requests must succeed again and updates replicate, and the connections stay within the limit and do not grow with the number of polls. Non-trivial: at least one fault phase and more than 20 stored updates.",
		Quick:    800,
		Thorough: 20000,
		New:      func() any { return &Case8{} },
		Gen:      genCase8,
		Run:      run8,
		Assume:   []string{"A request that is the first to use a connection broken by an outage may still fail."},
	})
}
