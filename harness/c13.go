package main

import (
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	"google.golang.org/grpc"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C13: tickets of received matches are inactive.

type Case13 struct {
	Bin    string
	Mem    bool
	Wait   bool
	Delay  int // ms every read of the update stream takes
	Count  int // updates per read
	Out    int // updates per write
	N      int
	Fns    []*FnS
	Caller string // "", cancel, gone
	After  int    // cancel after so many matches were received
	AfterM int    // and so many ms
	Noise  int    // other updates while the invocation runs
	Max    int    // configured limit of updates per call (0: none configured)
	Back   []int  // tickets activated again at the end
}

func genCase13(t *rapid.T) any {
	c := &Case13{Bin: pick(t, bins, "bin"), Wait: rapid.Bool().Draw(t, "wait"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 0}
	c.Delay = rapid.SampledFrom([]int{30, 150, 250, 0, 80, 400}).Draw(t, "delay")
	c.Count = rapid.SampledFrom([]int{500, 1, 3}).Draw(t, "count")
	c.Out = rapid.SampledFrom([]int{500, 1, 3}).Draw(t, "out")
	c.N = rapid.IntRange(2, 20).Draw(t, "n")
	budget := 60
	if c.Count < 5 {
		budget = max(4, 3000/(c.Delay+1)*c.Count)
	}
	nf := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "nf")
	for i := 0; i < nf; i++ {
		f := &FnS{Kind: "grpc", Early: rapid.IntRange(0, 5).Draw(t, "early") == 5}
		for k := rapid.IntRange(1, 4).Draw(t, "nm"); k > 0; k-- {
			m := genMatch(t, c.N)
			for _, r := range m.Ros {
				if len(r.T) > budget {
					r.T = r.T[:budget]
				}
				budget -= len(r.T)
			}
			m.Wait = rapid.SampledFrom([]int{0, 0, 0, 5, 60}).Draw(t, "mw")
			m.ID = fmt.Sprintf("f%d-%d", i, k)
			if m.Nil {
				m = &MatchS{ID: m.ID}
			}
			f.M = append(f.M, m)
		}
		switch rapid.IntRange(0, 6).Draw(t, "end") {
		case 4, 5:
			f.End, f.Code = "error", 2
		case 6:
			f.End = "drop"
		}
		f.Wait = rapid.SampledFrom([]int{0, 0, 20, 200}).Draw(t, "fw")
		c.Fns = append(c.Fns, f)
	}
	switch rapid.IntRange(0, 6).Draw(t, "caller") {
	case 4, 5:
		c.Caller = "cancel"
	case 6:
		c.Caller = "gone"
	}
	c.After = rapid.IntRange(0, 2).Draw(t, "after")
	c.AfterM = rapid.SampledFrom([]int{0, 0, 10, 100}).Draw(t, "afterm")
	c.Noise = rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "noise")
	if rapid.IntRange(0, 9).Draw(t, "big") == 5 {
		// more tickets in a match than a call may have, or than fit in a batch
		c.Mem, c.Delay, c.Count = false, min(c.Delay, 80), 500
		c.N = rapid.SampledFrom([]int{30, 120, 600, 1500}).Draw(t, "bn")
		if c.N > 120 {
			c.Out = 500
		}
		f := c.Fns[len(c.Fns)-1]
		f.M[rapid.IntRange(0, len(f.M)-1).Draw(t, "bm")].All = rapid.SampledFrom([]int{c.N, c.N - 1, c.N / 2}).Draw(t, "ba")
	}
	c.Max = rapid.SampledFrom([]int{0, 0, 3, 10, 4000}).Draw(t, "max")
	c.Back = rapid.SliceOfNDistinct(rapid.IntRange(0, c.N-1), 0, 3, func(i int) int { return i }).Draw(t, "back")
	return c
}

func run13(x *X, ci any) (res R) {
	cs := ci.(*Case13)
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(cs.Count)
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Out)
	if cs.Max > 0 && !cs.Mem {
		env["OM_MAX_STATE_UPDATES_PER_CALL"] = fmt.Sprint(cs.Max)
	}
	delay := cs.Delay
	if cs.Mem {
		delay = min(delay, 150)
		env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = fmt.Sprint(max(2, delay))
	}
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	idx := map[string]int{}
	for i, id := range ids {
		idx[id] = i
	}
	offered := func(when string) (map[int]bool, *R) {
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			r := badErr("query "+when, err)
			return nil, &r
		}
		out := map[int]bool{}
		for _, t := range got["all"] {
			if i, ok := idx[t.GetId()]; ok {
				out[i] = true
			}
		}
		return out, nil
	}
	if o, r := offered("at the start"); r != nil {
		return *r
	} else if len(o) != cs.N {
		return R{Skip: "not all tickets are active"}
	}
	if !cs.Mem && delay > 0 {
		rd.SetHook(func(k *Cmd) Action {
			if k.Name == "XREAD" {
				time.Sleep(time.Duration(delay) * time.Millisecond)
			}
			return Action{}
		})
	}
	runs := []*fnRun{}
	specs := []*pb.MatchmakingFunctionSpec{}
	for k, f := range cs.Fns {
		r := x.NewFn(fmt.Sprintf("f%d", k), f, ids)
		runs = append(runs, r)
		specs = append(specs, r.spec)
	}
	byID := map[string]*MatchS{}
	for _, f := range cs.Fns {
		for _, m := range f.M {
			byID[m.ID] = m
		}
	}
	cl := c.Client
	var conn *grpc.ClientConn
	if cs.Caller == "gone" {
		var err error
		if conn, cl, err = c.NewConn(); err != nil {
			return R{Skip: err.Error()}
		}
		defer conn.Close()
	}
	ctx, cancel := context.WithTimeout(context.Background(), x.T(60*time.Second))
	defer cancel()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if cs.Noise > 0 && rd != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				for k := 0; k < cs.Noise; k++ {
					rd.Add("activate", fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 5000+k))
				}
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
			}
		}()
	}
	stopNoise := sync.OnceFunc(func() { close(stop); wg.Wait() })
	defer stopNoise()
	st, err := cl.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}, Mmfs: specs}, grpc.MaxCallRecvMsgSize(64<<20))
	if err != nil {
		return badErr("InvokeMatchmakingFunctions", err)
	}
	off := map[int]bool{}
	received := map[string]bool{}
	ended := false
	gone := func() {
		if cs.AfterM > 0 {
			time.Sleep(time.Duration(cs.AfterM) * time.Millisecond)
		}
		if conn != nil {
			conn.Close()
		}
		cancel()
	}
	n := 0
	for {
		if cs.Caller != "" && n >= cs.After {
			gone()
			break
		}
		m, e := st.Recv()
		if e != nil {
			if mm, d := c.CrashedSoon(e); d {
				return bad("%s", mm)
			}
			if ctx.Err() != nil {
				return live("the invocation did not end")
			}
			ended = true
			if e != io.EOF {
				res.Labels = append(res.Labels, "ended-with-error")
			}
			break
		}
		n++
		id := m.GetMatch().GetId()
		received[id] = true
		s := byID[id]
		if s == nil {
			continue
		}
		for i := range s.refs(cs.N) {
			off[i] = true
		}
		if cs.Wait && len(s.refs(cs.N)) > 0 {
			o, r := offered("when a match was received")
			if r != nil {
				return *r
			}
			for i := range s.refs(cs.N) {
				if o[i] {
					return bad("deactivation wait is on, but ticket %s of match %s was still offered after the match had been received", ids[i], id)
				}
			}
		}
	}
	// the matches that the server certainly received
	fails := false
	for _, r := range runs {
		r.mu.Lock()
		sent := len(r.sent)
		r.mu.Unlock()
		if r.f.End != "" {
			fails = true
		}
		if ended {
			for k, m := range r.f.M {
				if k < sent && (r.f.End != "drop" || received[m.ID]) {
					for i := range m.refs(cs.N) {
						off[i] = true
					}
				}
			}
		}
	}
	if ended {
		o, r := offered("after the invocation")
		if r != nil {
			return *r
		}
		for i := range off {
			if o[i] {
				return bad("ticket %s, contained in a match of this invocation, was still offered right after the invocation had ended", ids[i])
			}
		}
		for i := range ids {
			anywhere := false
			for _, m := range byID {
				anywhere = anywhere || m.refs(cs.N)[i]
			}
			if !anywhere && !o[i] {
				return bad("ticket %s is in no match, but is not offered any more", ids[i])
			}
		}
	} else {
		// the functions go on although the caller is gone
		end := time.Now().Add(x.T(25 * time.Second))
		for {
			all := true
			for _, r := range runs {
				r.mu.Lock()
				// a function whose invocation never began because the caller was gone at once
				if r.done == 0 {
					all = false
				}
				r.mu.Unlock()
			}
			if all {
				break
			}
			if time.Now().After(end) {
				if n == 0 && cs.AfterM < 500 {
					break // the request may never have been processed
				}
				return live("a function was not run to its end after the caller was gone")
			}
			if n == 0 && cs.AfterM == 0 && time.Until(end) < x.T(23*time.Second) {
				break // likewise; no need to wait any longer
			}
			time.Sleep(2 * time.Millisecond)
		}
		for _, r := range runs {
			r.mu.Lock()
			sent := len(r.sent)
			r.mu.Unlock()
			if r.f.End == "drop" {
				continue
			}
			for k, m := range r.f.M {
				if k < sent {
					for i := range m.refs(cs.N) {
						off[i] = true
					}
				}
			}
		}
		for {
			o, r := offered("after the functions had ended")
			if r != nil {
				return *r
			}
			left := -1
			for i := range off {
				if o[i] {
					left = i
				}
			}
			if left < 0 {
				break
			}
			if time.Now().After(end) {
				return live("ticket %s, contained in a match sent after the caller was gone (or just before), is still offered", ids[left])
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	stopNoise()
	if rd != nil {
		rd.SetHook(nil)
	}
	// it stays that way
	if err := c.sync1(x.T(30 * time.Second)); err != nil {
		return badErr("sync", err)
	}
	o, r := offered("later")
	if r != nil {
		return *r
	}
	for i := range off {
		if o[i] {
			return bad("ticket %s, contained in a match, is offered again", ids[i])
		}
	}
	if len(cs.Back) > 0 {
		var bi []string
		for _, i := range cs.Back {
			bi = append(bi, ids[i%cs.N])
		}
		cx, cc := rpcCtx(x)
		defer cc()
		if _, err := c.Client.ActivateTickets(cx, &pb.ActivateTicketsRequest{TicketIds: bi}); err != nil {
			return badErr("ActivateTickets", err)
		}
		if err := c.sync1(x.T(30 * time.Second)); err != nil {
			return badErr("sync", err)
		}
		if o, r = offered("after re-activation"); r != nil {
			return *r
		}
		for _, i := range cs.Back {
			if !o[i%cs.N] {
				return bad("ticket %s was activated again after the match, but is not offered", ids[i%cs.N])
			}
		}
	}
	for _, m := range byID {
		if cs.Max > 0 && !cs.Mem && len(m.refs(cs.N)) > cs.Max || len(m.refs(cs.N)) > 500 {
			res.Labels = append(res.Labels, "match-beyond-limit")
		}
	}
	res.Nontriv = len(off) > 0 && (delay >= 30 || cs.Caller != "" || fails)
	if len(off) > 0 {
		if cs.Wait {
			res.Labels = append(res.Labels, "wait")
		}
		if fails {
			res.Labels = append(res.Labels, "failing-functions")
		}
		if cs.Caller != "" {
			res.Labels = append(res.Labels, "caller-"+cs.Caller)
		}
		if delay >= 150 {
			res.Labels = append(res.Labels, "slow-replication")
		}
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C13",
		Rule:     "A case is 1-3 functions streaming 1-4 matches each over 2-20 active tickets (also foreign, malformed, empty and repeated ids; sometimes a match of up to 1500 tickets, more than one call may update), ending well, with an error or by hanging up; replication reads take 0-400 ms and carry 1-500 updates, writes 1-500; the caller stays, cancels or disconnects; both wait settings. The pools are queried when a match is received (wait on), right after the end of the invocation, and later. Non-trivial: a ticket had to be inactive, and replication was slow, or a function failed, or the caller was gone.",
		Quick:    500,
		Thorough: 6000,
		MaxSh:    16,
		New:      func() any { return &Case13{} },
		Gen:      genCase13,
		Run:      run13,
	})
}
