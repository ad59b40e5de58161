package main

import (
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C12: all matches of all functions are relayed once, unchanged.

type Inv12 struct {
	Fns  []*FnS
	Two  []int `json:",omitempty"` // functions listed a second time
	Slow int   // ms the caller takes per match
}

type Case12 struct {
	Bin    string
	Wait   bool
	Mem    bool
	N      int // tickets
	InWait int
	Refuse bool // state storage refuses the deactivations
	Invs   []*Inv12
}

func genFn(t *rapid.T, n, maxM int) *FnS {
	f := &FnS{Kind: "grpc"}
	switch rapid.IntRange(0, 15).Draw(t, "fk") {
	case 10:
		f.Kind = "rest"
	case 11, 12:
		f.Kind = "unreachable"
	case 13:
		f.Kind = "unimpl"
	case 14:
		f.Kind = pick(t, []string{"unix:/nonexistent/socket", "", "[::1]:1", "127.0.0.1:1", "bogus://x", "127.0.0.1:99999"}, "host")
		return f
	}
	f.Early = rapid.IntRange(0, 5).Draw(t, "early") == 5
	if f.Kind == "grpc" && rapid.IntRange(0, 3).Draw(t, "addr") == 3 {
		f.Addr = pick(t, []string{"joined", "low", "localhost", "dns"}, "addrk")
	}
	switch rapid.IntRange(0, 9).Draw(t, "end") {
	case 5, 6, 7:
		f.End = "error"
		f.Code = rapid.SampledFrom([]int{2, 1, 3, 4, 5, 8, 11, 13, 14, 16, 99}).Draw(t, "code")
	case 8:
		f.End = "oversize"
	case 9:
		f.End = "drop"
	}
	if rapid.IntRange(0, 3).Draw(t, "fw") == 3 {
		f.Wait = rapid.IntRange(0, 30).Draw(t, "fwait")
	}
	nm := rapid.IntRange(0, maxM).Draw(t, "nm")
	if rapid.IntRange(0, 11).Draw(t, "many") == 6 {
		nm = rapid.IntRange(30, 400).Draw(t, "nmany")
	}
	var prev *MatchS
	pads := 0
	for i := 0; i < nm; i++ {
		m := prev
		if i > 20 || prev != nil && rapid.IntRange(0, 3).Draw(t, "same") == 3 {
			m = prev
		} else {
			m = genMatch(t, n)
		}
		if m.Pad > 0 {
			pads += m.Pad
			if pads > 8000000 {
				m = &MatchS{ID: "small"}
			}
		}
		if i < 6 && rapid.IntRange(0, 7).Draw(t, "mw") == 7 {
			c := *m
			c.Wait = rapid.IntRange(1, 15).Draw(t, "mwait")
			f.M = append(f.M, &c)
		} else {
			f.M = append(f.M, m)
		}
		prev = m
	}
	return f
}

func genCase12(t *rapid.T) any {
	c := &Case12{Bin: pick(t, bins, "bin"), Wait: rapid.Bool().Draw(t, "wait"), Mem: rapid.Bool().Draw(t, "mem")}
	c.N = rapid.SampledFrom([]int{0, 1, 5, 30}).Draw(t, "n")
	c.InWait = rapid.SampledFrom([]int{2, 2, 20}).Draw(t, "inw")
	c.Refuse = !c.Mem && rapid.IntRange(0, 5).Draw(t, "refuse") == 5
	for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "ni"); i > 0; i-- {
		v := &Inv12{Slow: rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(t, "slow")}
		nf := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 0}).Draw(t, "nf")
		for k := 0; k < nf; k++ {
			v.Fns = append(v.Fns, genFn(t, c.N, 8))
		}
		if nf > 0 && rapid.IntRange(0, 4).Draw(t, "two") == 4 {
			v.Two = append(v.Two, rapid.IntRange(0, nf-1).Draw(t, "twoi"))
		}
		c.Invs = append(c.Invs, v)
	}
	return c
}

// setupActive starts a server with n active tickets.
func (x *X) setupActive(env map[string]string, bin string, mem bool, n int) (*Core, *FakeRedis, *listener, []string, *R) {
	var rd *FakeRedis
	var l *listener
	if !mem {
		rd, l = x.NewRedis()
		redisEnv(env, l)
	}
	var ids []string
	if !mem {
		es := [][]string{}
		now := time.Now()
		for i := 0; i < n; i++ {
			t := (&TicketS{Tags: []string{"a", fmt.Sprintf("t%d", i)}, Cr: &TS{S: now.Unix()}, Ex: &TS{S: now.Unix() + 590}}).PB()
			es = append(es, []string{"ticket", string(mustMarshal(t))})
		}
		ids = rd.Preload(uint64(now.UnixMilli()), es)
		as := [][]string{}
		for _, id := range ids {
			as = append(as, []string{"activate", id})
		}
		rd.Preload(uint64(now.UnixMilli()), as)
	}
	c, err := x.StartCore(env, bin)
	if err != nil {
		return nil, nil, nil, nil, &R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	w := &World{x: x, c: c}
	if mem && n > 0 {
		ctx, cancel := rpcCtx(x)
		defer cancel()
		ids = make([]string, n)
		rs := make([]*R, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ids[i], rs[i] = w.create(&TicketS{Tags: []string{"a", fmt.Sprintf("t%d", i)}})
			}()
		}
		wg.Wait()
		for _, r := range rs {
			if r != nil {
				return nil, nil, nil, nil, r
			}
		}
		if _, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids}); err != nil {
			return nil, nil, nil, nil, w.callErr("ActivateTickets", err)
		}
	}
	if n > 0 {
		if err := c.sync1(x.T(30 * time.Second)); err != nil {
			r := badErr("waiting for the tickets", err)
			return nil, nil, nil, nil, &r
		}
	}
	return c, rd, l, ids, nil
}

func run12(x *X, ci any) (res R) {
	cs := ci.(*Case12)
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.InWait)
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	if cs.Refuse {
		rd.SetHook(func(k *Cmd) Action {
			if k.Name == "XADD" {
				if u, ok := parseXadd(k.Args); ok && u.kind == "deactivate" {
					return Action{Kind: ActErr, Msg: "OOM command not allowed when used memory > 'maxmemory'."}
				}
			}
			return Action{}
		})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	out := make([]*R, len(cs.Invs))
	total, fails, several := 0, 0, 0
	for i, v := range cs.Invs {
		runs := []*fnRun{}
		specs := []*pb.MatchmakingFunctionSpec{}
		times := map[*fnRun]int{}
		for k, f := range v.Fns {
			r := x.NewFn(fmt.Sprintf("f%d", k), f, ids)
			runs = append(runs, r)
			specs = append(specs, r.spec)
			times[r] = 1
		}
		for _, k := range v.Two {
			if v.Fns[k].End != "drop" { // its server stops
				specs = append(specs, runs[k].spec)
				times[runs[k]]++
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fail := func(r R) { out[i] = &r }
			ctx, cancel := context.WithTimeout(context.Background(), x.T(40*time.Second))
			defer cancel()
			st, err := c.Client.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: fmt.Sprintf("inv%d", i), Pools: map[string]*pb.Pool{"all": {}}}, Mmfs: specs})
			if err != nil {
				fail(badErr("InvokeMatchmakingFunctions", err))
				return
			}
			var got []*pb.Match
			for {
				m, e := st.Recv()
				if e != nil {
					if e != io.EOF {
						err = e
					}
					break
				}
				got = append(got, m.GetMatch())
				if v.Slow > 0 {
					time.Sleep(time.Duration(v.Slow) * time.Millisecond)
				}
			}
			if m, d := c.CrashedSoon(err); d {
				fail(bad("%s", m))
				return
			}
			if ctx.Err() != nil {
				fail(live("invocation %d did not end", i))
				return
			}
			if len(specs) == 0 { // refused
				if len(got) > 0 {
					fail(bad("matches without functions"))
				}
				return
			}
			must, may := map[string]int{}, map[string]int{}
			show := map[string]string{}
			n, nf, fl := 0, 0, 0
			for k, r := range runs {
				r.mu.Lock()
				started, done := r.started, r.done
				sent := r.sent
				r.mu.Unlock()
				if r.f.Kind != "grpc" {
					fl++
					if r.f.Kind != "rest" {
						continue
					}
				}
				if r.f.End != "" {
					fl++
				}
				if r.f.Kind == "grpc" {
					if started < times[r] {
						fail(bad("invocation %d ended (%v) after function %d was started %d times instead of %d", i, err, k, started, times[r]))
						return
					}
					if done < started && r.f.End != "drop" && r.f.End != "oversize" {
						fail(bad("invocation %d ended (%v) before function %d had finished", i, err, k))
						return
					}
				}
				for _, m := range sent {
					b := "nil"
					if m != nil {
						b = detBytes(m)
					}
					show[b] = fmtMatch(m)
					if r.f.End == "drop" || r.f.Kind == "rest" {
						may[b]++
					} else {
						must[b]++
					}
				}
				if len(sent) > 0 {
					nf++
					n += len(sent)
				}
			}
			have := map[string]int{}
			for _, m := range got {
				b := "nil"
				if m != nil {
					b = detBytes(m)
				}
				have[b]++
				if must[b]+may[b] == 0 && !(m != nil && m.Id == "too big") {
					fail(bad("invocation %d returned a match that no function sent: %s", i, fmtMatch(m)))
					return
				}
			}
			for b, w := range must {
				if have[b] < w {
					fail(bad("invocation %d (ended with %v) returned match %s %d times; the functions sent it %d times", i, err, show[b], have[b], w))
					return
				}
			}
			for b, h := range have {
				if h > must[b]+may[b] && show[b] != "" {
					fail(bad("invocation %d returned match %s %d times; the functions sent it %d times", i, show[b], h, must[b]+may[b]))
					return
				}
			}
			mu.Lock()
			total += n
			if fl > 0 {
				fails++
			}
			if nf > 1 {
				several++
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	for _, r := range out {
		if r != nil {
			return *r
		}
	}
	res.Nontriv = total >= 2
	if fails > 0 && total > 0 {
		res.Labels = append(res.Labels, "failures+matches")
	}
	if several > 0 {
		res.Labels = append(res.Labels, "several-streaming-functions")
	}
	if total > 60 {
		res.Labels = append(res.Labels, "matches>60")
	}
	if len(cs.Invs) > 1 {
		res.Labels = append(res.Labels, "concurrent-invocations")
	}
	if cs.Wait {
		res.Labels = append(res.Labels, "wait")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C12",
		Rule:     "A case is 1-3 concurrent invocations of 0-8 functions each; a function is reachable, unreachable, of an unsupported type or does not implement the service, streams 0-400 matches (empty, absent, repeated, large) with pauses, before or after reading its request, and ends normally, with any error, with an oversize message, or by hanging up; with and without deactivation wait, slow callers, refused deactivations. Compared: multiset of matches sent and received, and that all functions had finished. Non-trivial: at least two matches were sent.",
		Quick:    1200,
		Thorough: 12000,
		New:      func() any { return &Case12{} },
		Gen:      genCase12,
		Run:      run12,
		Assume:   []string{"A match a function managed to hand to gRPC before it ended (normally or with an error status) was sent; for functions that hang up it may have been lost."},
	})
}
