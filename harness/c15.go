package main

import (
	"context"
	"fmt"
	"regexp"
	"strconv"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C15: watchers get each assignment exactly once.

type Asg15 struct {
	Conn string
	Ext  map[string]AnyS `json:",omitempty"`
	Pad  int             `json:",omitempty"`
}

type Ev15 struct {
	At   int // ms
	Refs []int
	A    *Asg15
	API  bool
}

type Wa15 struct {
	At   int
	Ids  []TRef
	Stop int  // ms after its start at which the caller goes away; 0: stays
	Gone bool // by closing the connection
}

type Case15 struct {
	Bin   string
	Mem   bool
	TTL   int
	N     int
	Ahead []int // ms by which a ticket's id is ahead of the clock
	Evs   []*Ev15
	Was   []*Wa15
}

func (a *Asg15) pb() *pb.Assignment {
	out := &pb.Assignment{Connection: a.Conn, Extensions: extPB(a.Ext)}
	if a.Pad > 0 {
		out.Extensions = extPB(map[string]AnyS{"pad": {Type: "p", Val: make([]byte, a.Pad)}})
	}
	return out
}

func genCase15(t *rapid.T) any {
	c := &Case15{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 3}
	c.TTL = rapid.SampledFrom([]int{600, 4, 3, 2}).Draw(t, "ttl")
	c.N = rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < c.N; i++ {
		a := 0
		if !c.Mem && rapid.IntRange(0, 5).Draw(t, "ah") == 5 {
			a = rapid.SampledFrom([]int{1000, 2000, 500}).Draw(t, "ahead")
		}
		c.Ahead = append(c.Ahead, a)
	}
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "nev"); i < k; i++ {
		e := &Ev15{At: rapid.IntRange(0, 1800).Draw(t, "eat"), API: c.Mem || rapid.Bool().Draw(t, "eapi")}
		e.Refs = rapid.SliceOfN(rapid.IntRange(0, c.N-1), 1, 5).Draw(t, "erefs")
		e.A = &Asg15{Conn: fmt.Sprintf("c%d", i)}
		switch rapid.IntRange(0, 5).Draw(t, "ak") {
		case 3:
			e.A.Ext = genExt(t, 3)
		case 4:
			e.A = &Asg15{Ext: map[string]AnyS{"n": {Type: "x", Val: []byte{byte(i)}}}}
		case 5:
			e.A.Pad = rapid.SampledFrom([]int{1000, 300000}).Draw(t, "apad")
		}
		c.Evs = append(c.Evs, e)
	}
	if rapid.IntRange(0, 23).Draw(t, "late") == 11 {
		// long after the watches began, and (perhaps) shortly before they are over
		e := &Ev15{At: rapid.SampledFrom([]int{6000, 9000, 13500, 19000}).Draw(t, "lat"), API: c.Mem || rapid.Bool().Draw(t, "eapi"), A: &Asg15{Conn: "late"}}
		e.Refs = rapid.SliceOfN(rapid.IntRange(0, c.N-1), 1, 5).Draw(t, "erefs")
		c.Evs = append(c.Evs, e)
		if c.TTL = 600; rapid.Bool().Draw(t, "lttl") {
			c.TTL = e.At/1000 + 4
		}
		c.Was = append(c.Was, &Wa15{Ids: []TRef{{I: e.Refs[0]}}}, &Wa15{At: 500})
		for i := 0; i < c.N; i++ {
			c.Was[1].Ids = append(c.Was[1].Ids, TRef{I: i})
		}
	}
	for i := rapid.IntRange(1, 10).Draw(t, "nw"); i > 0; i-- {
		w := &Wa15{At: rapid.SampledFrom([]int{0, 0, 500, 1000, 2500, 300}).Draw(t, "wat")}
		for k := rapid.IntRange(0, 6).Draw(t, "wn"); k > 0; k-- {
			r := genTRef(t, c.N, true)
			r.Full = false
			w.Ids = append(w.Ids, r)
		}
		switch rapid.IntRange(0, 5).Draw(t, "ws") {
		case 3, 4:
			w.Stop = rapid.IntRange(1, 2000).Draw(t, "wstop")
		case 5:
			w.Stop = rapid.IntRange(1, 2000).Draw(t, "wstop")
			w.Gone = true
		}
		c.Was = append(c.Was, w)
	}
	return c
}

type val15 struct {
	bytes   string
	call    time.Time // before the call
	applied time.Time // certainly applied
	sup     time.Time // certainly superseded; zero: not
}

var goTotal = regexp.MustCompile(`goroutine profile: total (\d+)`)

func (c *Core) goroutines() (int, error) {
	b, err := c.httpGet("http://127.0.0.1:2224/debug/pprof/goroutine?debug=1")
	if err != nil {
		return 0, err
	}
	m := goTotal.FindSubmatch(b)
	if m == nil {
		return 0, fmt.Errorf("no goroutine profile: %s", head(string(b), 100))
	}
	return strconv.Atoi(string(m[1]))
}

func run15(x *X, ci any) (res R) {
	cs := ci.(*Case15)
	env := baseEnv()
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(cs.TTL)
	env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = "600"
	ttl := time.Duration(cs.TTL) * time.Second
	c, rd, _, _, rr := x.setupActive(env, cs.Bin, cs.Mem, 0)
	if rr != nil {
		return *rr
	}
	ids := make([]string, cs.N)
	w := &World{x: x, c: c}
	for i := range ids {
		tk := &TicketS{Tags: []string{"a"}}
		if rd != nil {
			p := tk.PB()
			p.ExpirationTime = tsAt(time.Now().Add(ttl))
			if a := cs.Ahead[i]; a > 0 {
				ids[i] = rd.AddAt(uint64(time.Now().UnixMilli()+int64(a)), "ticket", string(mustMarshal(p)))
			} else {
				ids[i] = rd.Add("ticket", string(mustMarshal(p)))
			}
			continue
		}
		var r *R
		if ids[i], r = w.create(tk); r != nil {
			return *r
		}
	}
	if err := c.sync1(x.T(30 * time.Second)); err != nil {
		return badErr("sync", err)
	}
	base, gerr := c.goroutines()
	start := time.Now()
	slack := x.T(5 * time.Second)
	last := 0
	for _, e := range cs.Evs {
		last = max(last, e.At)
	}
	for _, v := range cs.Was {
		last = max(last, v.At)
	}
	finish := start.Add(time.Duration(last)*time.Millisecond + 3200*time.Millisecond)
	type msg struct {
		id, val string
		at      time.Time
	}
	type wres struct {
		begin, end time.Time
		err        error
		stopped    time.Time // the caller went away
		msgs       []msg
	}
	outs := make([]*wres, len(cs.Was))
	var wg sync.WaitGroup
	for i, v := range cs.Was {
		o := &wres{}
		outs[i] = o
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(start.Add(time.Duration(v.At) * time.Millisecond)))
			cl := c.Client
			var conn *grpc.ClientConn
			if v.Gone {
				var err error
				if conn, cl, err = c.NewConn(); err != nil {
					o.err = err
					return
				}
				defer conn.Close()
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var mu sync.Mutex
			over := make(chan struct{})
			o.begin = time.Now()
			// when the caller goes away
			lim := finish
			if v.Stop > 0 {
				lim = o.begin.Add(time.Duration(v.Stop) * time.Millisecond)
			} else if cs.TTL < 600 {
				lim = o.begin.Add(ttl + 3*time.Second + slack)
			}
			go func() {
				select {
				case <-over:
				case <-time.After(time.Until(lim)):
					mu.Lock()
					o.stopped = time.Now()
					mu.Unlock()
					if conn != nil {
						conn.Close()
					}
					cancel()
				}
			}()
			req := &pb.WatchAssignmentsRequest{}
			for _, r := range v.Ids {
				req.TicketIds = append(req.TicketIds, refID(r, ids))
			}
			st, err := cl.WatchAssignments(ctx, req)
			for err == nil {
				var m *pb.StreamedWatchAssignmentsResponse
				if m, err = st.Recv(); err == nil {
					b := "nil"
					if m.GetAssignment() != nil {
						b = detBytes(m.GetAssignment())
					}
					o.msgs = append(o.msgs, msg{m.GetId(), b, time.Now()})
				}
			}
			close(over)
			mu.Lock()
			o.end, o.err = time.Now(), err
			mu.Unlock()
		}()
	}
	// the events, in the order of their times
	vals := map[string][]*val15{}
	var evErr *R
	evs := append([]*Ev15(nil), cs.Evs...)
	for i := range evs {
		for j := i + 1; j < len(evs); j++ {
			if evs[j].At < evs[i].At {
				evs[i], evs[j] = evs[j], evs[i]
			}
		}
	}
	for _, e := range evs {
		time.Sleep(time.Until(start.Add(time.Duration(e.At) * time.Millisecond)))
		a := e.A.pb()
		b := detBytes(a)
		call := time.Now()
		seen := map[string]bool{}
		ros := &pb.Roster{Name: "r", Assignment: a}
		for _, r := range e.Refs {
			ros.Tickets = append(ros.Tickets, &pb.Ticket{Id: ids[r]})
			seen[ids[r]] = true
		}
		if e.API {
			ctx, cancel := rpcCtx(x)
			_, err := c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ros})
			cancel()
			if err != nil {
				evErr = w.callErr("CreateAssignments", err)
				break
			}
		} else {
			for _, t := range ros.Tickets {
				rd.Add("assign", t.Id, "assignment", b)
			}
		}
		if err := c.sync1(x.T(30 * time.Second)); err != nil {
			r := badErr("sync", err)
			evErr = &r
			break
		}
		now := time.Now()
		for id := range seen {
			if l := vals[id]; len(l) > 0 {
				l[len(l)-1].sup = now
			}
			vals[id] = append(vals[id], &val15{bytes: b, call: call, applied: now})
		}
	}
	wg.Wait()
	if evErr != nil {
		return *evErr
	}
	if m, d := c.Crashed(); d {
		return bad("%s", m)
	}
	undelivered, delivered := 0, 0
	for i, v := range cs.Was {
		o := outs[i]
		what := fmt.Sprintf("watch %d (begun %d ms after the start, %d ids)", i, o.begin.Sub(start).Milliseconds(), len(v.Ids))
		if o.begin.IsZero() {
			return R{Skip: "no connection"}
		}
		mult := map[string]int{}
		newest := o.begin
		for _, r := range v.Ids {
			id := refID(r, ids)
			mult[id]++
			if idClass(id) == 1 {
				if t := time.UnixMilli(idMS(id)); t.After(newest) {
					newest = t
				}
			}
		}
		cnt := map[string]int{}
		for _, m := range o.msgs {
			cnt[m.id]++
			if mult[m.id] == 0 {
				return bad("%s received a message for ticket %q, which it does not watch", what, m.id)
			}
			if cnt[m.id] > mult[m.id] {
				return bad("%s received %d messages for ticket %s", what, cnt[m.id], m.id)
			}
			if len(vals[m.id]) == 0 {
				return bad("%s received an assignment for ticket %s, which has none", what, m.id)
			}
			ok, known := false, false
			for _, q := range vals[m.id] {
				if q.bytes != m.val {
					continue
				}
				known = true
				if q.call.After(m.at) {
					continue
				}
				if !q.sup.IsZero() && q.sup.Before(o.begin) {
					continue
				}
				ok = true
				if !q.sup.IsZero() && m.at.Sub(q.sup) > x.T(1500*time.Millisecond) {
					return live("%s received an assignment for ticket %s that was superseded %v before", what, m.id, m.at.Sub(q.sup))
				}
			}
			if !known {
				return bad("%s received a changed assignment for ticket %s", what, m.id)
			}
			if !ok {
				return bad("%s received an assignment for ticket %s that had been superseded before the watch began, or was made later", what, m.id)
			}
			delivered++
		}
		all := true
		end := o.end
		for id, k := range mult {
			if cnt[id] == k {
				continue
			}
			all = false
			undelivered += k - cnt[id]
			q := vals[id]
			if len(q) == 0 {
				continue
			}
			from := q[0].applied
			if from.Before(o.begin) {
				from = o.begin
			}
			lim := end
			if !o.stopped.IsZero() {
				lim = o.stopped
			}
			if lim.Sub(from) > 2500*time.Millisecond {
				return live("%s: ticket %s has had an assignment since %v before the end of the watch (%v), but no message came", what, id, lim.Sub(from), o.err)
			}
		}
		if o.stopped.IsZero() && !all {
			// it ended by itself
			if d := end.Sub(newest); d < ttl-50*time.Millisecond {
				return bad("%s ended by itself (%v) %v after it began (or its newest ticket was created), before all ids were delivered; the ticket lifetime is %v", what, o.err, d, ttl)
			}
		}
		if !o.stopped.IsZero() && !all && cs.TTL < 600 && v.Stop == 0 {
			return live("%s had not ended %v after the ticket lifetime (%v) had passed", what, o.stopped.Sub(newest.Add(ttl)), ttl)
		}
		if all {
			// the last message ends it
			lastM := o.begin
			if len(o.msgs) > 0 {
				lastM = o.msgs[len(o.msgs)-1].at
			}
			if d := o.end.Sub(lastM); d > slack || !o.stopped.IsZero() && o.stopped.Sub(lastM) > 1500*time.Millisecond {
				return live("%s did not end by itself after all ids were delivered", what)
			}
			if o.stopped.IsZero() {
				if s := status.Code(o.err); o.err != nil && o.err.Error() != "EOF" && s != codes.OK {
					return bad("%s ended with %v after all ids were delivered", what, o.err)
				}
			}
		}
	}
	// nothing is left behind
	if gerr == nil {
		end := time.Now().Add(x.T(8 * time.Second))
		for {
			n, err := c.goroutines()
			if err != nil {
				break
			}
			if n <= base+5 {
				break
			}
			if time.Now().After(end) {
				return live("there are %d goroutines after all watches have ended; there were %d before (%d ids were not delivered)", n, base, undelivered)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	res.Nontriv = delivered > 0
	if undelivered > 5 {
		res.Labels = append(res.Labels, "undelivered>5")
	}
	if delivered > 5 {
		res.Labels = append(res.Labels, "delivered>5")
	}
	if last > 5000 {
		res.Labels = append(res.Labels, "late-assignment")
	}
	if cs.TTL < 600 {
		res.Labels = append(res.Labels, "short-lifetime")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C15",
		Rule:     "A case is a ticket lifetime (2-4 s or long), 1-10 tickets (some with ids ahead of the clock), 1-5 assignments over two seconds (several tickets, repeated and superseding, with extensions, through the API or by another instance; sometimes one more 6-19 s later), and 1-10 watches begun before, between and after them on any mix of assigned, unassigned, unknown, malformed and repeated ids, whose callers stay, cancel or disconnect. Judged: messages per id, content, staleness by measured times, when the watch ended, and goroutines left afterwards. Non-trivial: a message was delivered.",
		Quick:    416,
		Thorough: 6000,
		MaxSh:    32,
		New:      func() any { return &Case15{} },
		Gen:      genCase15,
		Run:      run15,
		Assume:   []string{"The server and the harness read the same clock."},
	})
}
