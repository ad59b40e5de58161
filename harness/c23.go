package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"google.golang.org/grpc"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C23: functions outlive their caller and are bounded by the timeout.

type Case23 struct {
	Bin     string
	Mem     bool
	Wait    bool
	Timeout int // s
	N       int
	Fns     []*FnS
	Caller  string // "", cancel, gone, deadline
	AfterM  int
}

func genCase23(t *rapid.T) any {
	c := &Case23{Bin: pick(t, bins, "bin"), Wait: rapid.Bool().Draw(t, "wait"), Mem: rapid.Bool().Draw(t, "mem")}
	c.Timeout = rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(t, "to")
	c.N = rapid.IntRange(2, 12).Draw(t, "n")
	nf := rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(t, "nf")
	for i := 0; i < nf; i++ {
		f := &FnS{Kind: "grpc", Early: rapid.IntRange(0, 5).Draw(t, "early") == 5}
		if rapid.IntRange(0, 9).Draw(t, "bh") == 9 {
			f.Kind = "blackhole"
			c.Fns = append(c.Fns, f)
			continue
		}
		left := c.Timeout * 1000
		for k := rapid.IntRange(0, 4).Draw(t, "nm"); k > 0; k-- {
			m := genMatch(t, c.N)
			m.Wait = rapid.IntRange(0, left*2/3).Draw(t, "mw")
			left -= m.Wait
			m.ID = fmt.Sprintf("f%d-%d", i, k)
			if m.Nil {
				m = &MatchS{ID: m.ID, Wait: m.Wait}
			}
			m.Pad = min(m.Pad, 1000)
			f.M = append(f.M, m)
		}
		switch rapid.IntRange(0, 6).Draw(t, "end") {
		case 2, 3, 4:
			f.End = "hang"
		case 5:
			f.End = "deaf"
		case 6:
			f.End, f.Code = "error", 4
		}
		f.Wait = rapid.IntRange(0, left*2/3).Draw(t, "fw")
		c.Fns = append(c.Fns, f)
	}
	switch rapid.IntRange(0, 9).Draw(t, "caller") {
	case 3, 4:
		c.Caller = "cancel"
	case 5, 6:
		c.Caller = "gone"
	case 7, 8:
		c.Caller = "deadline"
	}
	c.AfterM = rapid.IntRange(20, c.Timeout*1000).Draw(t, "afterm")
	if rapid.IntRange(0, 35).Draw(t, "long") == 17 {
		// the caller has been away for long when the function sends its match
		c.Timeout = rapid.SampledFrom([]int{9, 14, 18}).Draw(t, "lto")
		c.AfterM = rapid.SampledFrom([]int{100, 20, 1000}).Draw(t, "lafter")
		if c.Caller == "" {
			c.Caller = "cancel"
		}
		m := &MatchS{ID: "long", Wait: c.Timeout*1000 - 1500, Ros: []*RosS{{Key: "r", T: []TRef{{I: 0}}}}}
		c.Fns = append(c.Fns, &FnS{Kind: "grpc", M: []*MatchS{m}, End: rapid.SampledFrom([]string{"", "hang"}).Draw(t, "lend")})
	}
	return c
}

// total is the time after which the function's script is over.
func (f *FnS) total() int {
	n := f.Wait
	for _, m := range f.M {
		n += m.Wait
	}
	return n
}

func run23(x *X, ci any) (res R) {
	cs := ci.(*Case23)
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_MMF_TIMEOUT_SECS"] = fmt.Sprint(cs.Timeout)
	c, _, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N)
	if rr != nil {
		return *rr
	}
	// the harness's own functions are bound by the timeout as well
	runs := []*fnRun{}
	specs := []*pb.MatchmakingFunctionSpec{}
	for k, f := range cs.Fns {
		r := x.NewFn(fmt.Sprintf("f%d", k), f, ids)
		runs = append(runs, r)
		specs = append(specs, r.spec)
	}
	cl := c.Client
	var conn *grpc.ClientConn
	if cs.Caller == "gone" {
		var err error
		if conn, cl, err = c.NewConn(); err != nil {
			return R{Skip: err.Error()}
		}
		defer conn.Close()
	}
	to := time.Duration(cs.Timeout) * time.Second
	slack := x.T(6 * time.Second)
	ctx, cancel := context.WithTimeout(context.Background(), to+slack)
	defer cancel()
	if cs.Caller == "deadline" {
		var cc context.CancelFunc
		ctx, cc = context.WithTimeout(ctx, time.Duration(cs.AfterM)*time.Millisecond)
		defer cc()
	}
	start := time.Now()
	st, err := cl.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}, Mmfs: specs})
	if err != nil {
		return badErr("InvokeMatchmakingFunctions", err)
	}
	if cs.Caller == "cancel" || cs.Caller == "gone" {
		go func() {
			time.Sleep(time.Duration(cs.AfterM) * time.Millisecond)
			cancel()
			if conn != nil {
				conn.Close()
			}
		}()
	}
	got := map[string]bool{}
	for {
		m, e := st.Recv()
		if e == nil {
			got[m.GetMatch().GetId()] = true
			continue
		}
		if mm, d := c.CrashedSoon(e); d {
			return bad("%s", mm)
		}
		if e != io.EOF && cs.Caller == "" && ctx.Err() != nil {
			return live("the invocation had not ended %v after the function timeout of %v", slack, to)
		}
		break
	}
	dur := time.Since(start)
	hangs := false
	for _, r := range runs {
		if r.f.Kind == "blackhole" || r.f.End == "hang" || r.f.End == "deaf" {
			hangs = true
		}
	}
	if cs.Caller == "" && hangs && dur < to-50*time.Millisecond {
		return bad("the invocation ended after %v although a function was still running and the function timeout is %v", dur, to)
	}
	// wait for the functions
	end := start.Add(to + slack + 2*time.Second)
	for k, r := range runs {
		if r.f.Kind == "blackhole" {
			continue
		}
		for {
			r.mu.Lock()
			done, started, cd := r.done, r.started, r.ctxDone
			r.mu.Unlock()
			if done > 0 {
				break
			}
			if time.Now().After(end) {
				if started == 0 && cs.Caller != "" && cs.AfterM < 500 {
					return R{Skip: "the caller was gone before its request was processed"}
				}
				if started == 0 {
					return live("function %d was never called", k)
				}
				return live("function %d (told to stop: %v) had not ended %v after the start of the invocation; the function timeout is %v", k, !cd.IsZero(), time.Since(start), to)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	off := map[int]bool{}
	late, cut := 0, 0
	for k, r := range runs {
		if r.f.Kind == "blackhole" {
			continue
		}
		r.mu.Lock()
		cd, early, sent, begun := r.ctxDone, r.early, len(r.sent), r.begun
		at := append([]time.Time(nil), r.at...)
		r.mu.Unlock()
		if !cd.IsZero() {
			if d := cd.Sub(start); d < to-50*time.Millisecond && !(r.f.End == "error" || r.f.End == "") {
				return bad("function %d was cancelled %v after the start of the invocation (caller: %q after %d ms); the function timeout is %v", k, d, cs.Caller, cs.AfterM, to)
			}
			if early && cd.Sub(start) < to-50*time.Millisecond {
				return bad("function %d was cancelled %v after the start of the invocation while it was still working (caller: %q after %d ms); the function timeout is %v", k, cd.Sub(start), cs.Caller, cs.AfterM, to)
			}
			if d := cd.Sub(begun); (r.f.End == "hang" || r.f.End == "deaf") && d > to+slack {
				return live("function %d was cancelled %v after it was called; the function timeout is %v", k, d, to)
			}
			cut++
		}
		for i, m := range r.f.M {
			if i >= sent || at[i].Sub(start) > to-400*time.Millisecond {
				continue // may have been cut off
			}
			for j := range m.refs(cs.N) {
				off[j] = true
			}
			if cs.Caller == "" && !got[m.ID] && !(r.f.End == "oversize" || r.f.End == "drop") {
				return bad("match %s of function %d was not returned", m.ID, k)
			}
			if cs.Caller != "" && at[i].Sub(start) > time.Duration(cs.AfterM)*time.Millisecond {
				late++
			}
		}
	}
	end = time.Now().Add(x.T(15 * time.Second))
	for {
		g, err := c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			return badErr("query", err)
		}
		o := map[string]bool{}
		for _, t := range g["all"] {
			o[t.GetId()] = true
		}
		left := -1
		for i := range off {
			if o[ids[i]] {
				left = i
			}
		}
		if left < 0 {
			break
		}
		if cs.Caller == "" {
			return bad("ticket %s, contained in a match of the invocation, is still offered after its end", ids[left])
		}
		if time.Now().After(end) {
			return live("ticket %s, contained in a match sent after the caller was gone (or just before), is still offered", ids[left])
		}
		time.Sleep(5 * time.Millisecond)
	}
	res.Nontriv = hangs || late > 0
	if cs.Timeout > 5 && late > 0 {
		res.Labels = append(res.Labels, "caller-left-long-before")
	}
	if hangs {
		res.Labels = append(res.Labels, "hanging-function")
	}
	if late > 0 {
		res.Labels = append(res.Labels, "match-after-caller-left")
	}
	if cut > 0 {
		res.Labels = append(res.Labels, "cut-off")
	}
	if cs.Caller != "" {
		res.Labels = append(res.Labels, "caller-"+cs.Caller)
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C23",
		Rule:     "A case is a function timeout of 1-3 s (sometimes up to 18 s, with a match shortly before its end), a caller that stays, cancels, disconnects or has a shorter deadline, and 1-4 functions that stream up to four matches spread over that time and then end, fail, hang, go on although cancelled, or never answer the connection. Measured: when each function's context ended (never before the timeout unless it had ended by itself; soon after it), when the invocation ended, and that the tickets of later matches become inactive. Non-trivial: a function hung, or a match was sent after the caller had left.",
		Quick:    416,
		Thorough: 6000,
		MaxSh:    32,
		New:      func() any { return &Case23{} },
		Gen:      genCase23,
		Run:      run23,
	})
}
