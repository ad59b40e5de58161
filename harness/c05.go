package main

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C05: lifetimes. Time is real; ticket ids get their age from the (fake) storage's entry ids.

type T5 struct {
	API   bool  // created through the API at the start; else found in storage
	Left  int64 // (storage) ms from the start of the case until the ticket lifetime since the id was assigned is over
	ExpIn int64 // ms from the start until the expiration time
	Act   bool  // activated at the start
	Asg   bool  // (storage) an assignment for it is found in storage
}

type S5 struct {
	Op   string // wait, act, deact, assign, check, watch
	N    int    // ms, or ticket index
	Refs []int
	API  bool
}

type Case5 struct {
	Bin   string
	Mem   bool
	TTL   int
	Add   int
	Ts    []*T5
	Steps []*S5
	Flood int `json:",omitempty"` // thousands of costly updates the instance finds in storage behind the tickets
}

type m5 struct {
	id       string
	idMS     int64
	exp      time.Time
	inactive bool
	offSince time.Time // deactivation (or creation) confirmed
	mayGone  bool
	mustGone bool
	asg      string
	asgMust  bool // assignment certainly dropped
	asgMay   bool
	onOrder  time.Time
}

func idMS(id string) int64 {
	v, _ := strconv.ParseInt(strings.Split(id, "-")[0], 10, 64)
	return v
}

func init() {
	register(&Check{
		ID:       "C05",
		Rule:     "A case is a ticket lifetime, an additional assignment lifetime, 3-24 tickets whose lifetimes and expiration times end before, during or after the case (ids of any age found in storage, or created through the API) and a timeline of activations, deactivations, assignments, waits and checks of pools, assignments and the inactive count. Only what certainly happened before or after a boundary (measured times) is judged. Non-trivial: a check happened at which one ticket had to be offered and another that had been activated had to be gone, or an inactive entry or assignment had to be dropped.",
		Quick:    288,
		Thorough: 6000,
		MaxSh:    24,
		New:      func() any { return &Case5{} },
		Assume:   []string{"The server and the harness read the same clock."},
		Gen: func(t *rapid.T) any {
			c := &Case5{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 0}
			c.TTL = rapid.SampledFrom([]int{600, 3, 2, 30, 5}).Draw(t, "ttl")
			c.Add = rapid.SampledFrom([]int{600, 0, 1, 2, 10}).Draw(t, "add")
			if c.Mem {
				c.TTL = rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "ttlm")
				c.Add = rapid.SampledFrom([]int{0, 1, 600}).Draw(t, "addm")
			}
			n := rapid.IntRange(3, 24).Draw(t, "n")
			if rapid.IntRange(0, 24).Draw(t, "fl") == 13 {
				c.Mem, c.TTL, c.Add = false, 600, 600
				c.Flood = rapid.IntRange(150, 250).Draw(t, "flood")
				for i := 0; i < n; i++ {
					c.Ts = append(c.Ts, &T5{Left: 500000, Act: true, ExpIn: rapid.SampledFrom([]int64{1500, 800, 2500, 3600000}).Draw(t, "fexp")})
				}
				return c
			}
			for i := 0; i < n; i++ {
				k := &T5{API: c.Mem || rapid.IntRange(0, 3).Draw(t, "api") == 0}
				k.Left = rapid.SampledFrom([]int64{1000, 2000, 600000, -600, -3000, -1500000, 500, 3000}).Draw(t, "left")
				k.ExpIn = rapid.SampledFrom([]int64{3600000, 1000, 2000, 3000, -1000, 500, 86400000}).Draw(t, "exp")
				k.Act = rapid.IntRange(0, 3).Draw(t, "act") > 0
				k.Asg = !k.API && rapid.IntRange(0, 3).Draw(t, "asg") == 0
				c.Ts = append(c.Ts, k)
			}
			total := 0
			for i := 0; i < rapid.IntRange(4, 14).Draw(t, "ns"); i++ {
				s := &S5{API: c.Mem || rapid.Bool().Draw(t, "sapi")}
				switch rapid.IntRange(0, 9).Draw(t, "sk") {
				case 0, 1, 2:
					s.Op = "wait"
					s.N = rapid.IntRange(100, 1500).Draw(t, "wait")
					if total+s.N > 4500 {
						continue
					}
					total += s.N
				case 3, 4:
					s.Op = "act"
				case 5:
					s.Op = "deact"
				case 6:
					s.Op = "assign"
				case 7:
					s.Op = "watch"
					s.Refs = []int{rapid.IntRange(0, n-1).Draw(t, "w"), rapid.IntRange(0, n-1).Draw(t, "w")}
				default:
					s.Op = "check"
				}
				if s.Op == "act" || s.Op == "deact" || s.Op == "assign" {
					s.Refs = rapid.SliceOfNDistinct(rapid.IntRange(0, n-1), 1, min(n, 6), func(i int) int { return i }).Draw(t, "refs")
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		},
		Run: run5,
	})
}

func run5(x *X, ci any) R {
	cs := ci.(*Case5)
	if cs.Flood > 0 {
		return flood5(x, cs)
	}
	e := baseEnv()
	e["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(cs.TTL)
	e["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = fmt.Sprint(cs.Add)
	e["OM_MAX_STATE_UPDATES_PER_CALL"] = "100000"
	ttlMS, addMS := int64(cs.TTL)*1000, int64(cs.Add)*1000
	var rd *FakeRedis
	start := time.Now().Truncate(time.Millisecond)
	ms := make([]*m5, len(cs.Ts))
	lab := map[string]bool{}
	if !cs.Mem {
		r, l := x.NewRedis()
		rd = r
		redisEnv(e, l)
		// entries in the order of their ids
		order := []int{}
		for i, k := range cs.Ts {
			ms[i] = &m5{}
			if !k.API {
				order = append(order, i)
			}
		}
		sort.SliceStable(order, func(a, b int) bool { return cs.Ts[order[a]].Left < cs.Ts[order[b]].Left })
		for _, i := range order {
			k := cs.Ts[i]
			at := start.UnixMilli() - ttlMS + k.Left
			if at > start.UnixMilli() {
				at = start.UnixMilli()
			}
			tk := &pb.Ticket{ExpirationTime: tsAt(start.Add(time.Duration(k.ExpIn) * time.Millisecond)), Attributes: &pb.Ticket_FilterableData{CreationTime: tsAt(start)}}
			ms[i].id = r.AddAt(uint64(at), "ticket", string(mustMarshal(tk)))
			ms[i].exp = tk.ExpirationTime.AsTime()
			ms[i].inactive = true
			ms[i].idMS = idMS(ms[i].id)
		}
		for _, i := range order {
			if cs.Ts[i].Act {
				r.Add("activate", ms[i].id)
				ms[i].inactive = false
				if ms[i].idMS+ttlMS < time.Now().Add(20*time.Second).UnixMilli() {
					// unless the server turns out to be quick, it may see the activation after the lifetime
					ms[i].mayGone = ms[i].idMS+ttlMS <= time.Now().UnixMilli()
				}
			}
			if cs.Ts[i].Asg {
				ms[i].asg = fmt.Sprintf("found-%d", i)
				r.Add("assign", ms[i].id, "connection", string(mustMarshal(&pb.Assignment{Connection: ms[i].asg})))
			}
		}
	}
	c, err := x.StartCore(e, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	// a full cache update cycle, begun after the call and finished before its return
	pass := func() *R {
		t0 := time.Now()
		for i := 0; i < 3; i++ {
			if err := c.sync1(x.T(30 * time.Second)); err != nil {
				r := badErr("waiting for replication", err)
				return &r
			}
		}
		t1 := time.Now()
		for _, m := range ms {
			if m == nil || m.id == "" {
				continue
			}
			end := m.idMS + ttlMS
			if t0.After(m.exp) {
				m.mustGone = true
			}
			if m.inactive && t1.UnixMilli()+2 > end {
				m.mayGone = true
			}
			if m.inactive && t0.UnixMilli()-2 > end {
				m.mustGone = true
			}
			if m.asg != "" && t0.UnixMilli()-2 > end+addMS {
				m.asgMust = true
			}
		}
		return nil
	}
	send := func(api bool, op string, ids []string, val string) *R {
		if !api && rd != nil {
			for _, id := range ids {
				if op == "assign" {
					rd.Add("assign", id, "connection", string(mustMarshal(&pb.Assignment{Connection: val})))
				} else {
					rd.Add(op, id)
				}
			}
			return nil
		}
		ctx, cancel := rpcCtx(x)
		defer cancel()
		var err error
		switch op {
		case "activate":
			_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		case "deactivate":
			_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
		case "assign":
			ros := &pb.Roster{Assignment: &pb.Assignment{Connection: val}}
			for _, id := range ids {
				ros.Tickets = append(ros.Tickets, &pb.Ticket{Id: id})
			}
			_, err = c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ros})
		}
		if err != nil {
			if m, d := c.CrashedSoon(err); d {
				r := bad("%s", m)
				return &r
			}
			r := live("%s failed: %v", op, err)
			return &r
		}
		return nil
	}
	if r := pass(); r != nil {
		return *r
	}
	// the activations found in storage are applied by now
	for i, k := range cs.Ts {
		if m := ms[i]; m != nil && m.id != "" && k.Act && time.Now().UnixMilli()+2 > m.idMS+ttlMS {
			m.mayGone = true
		}
	}
	var acts []string
	var actm []*m5
	for i, k := range cs.Ts {
		if !k.API {
			continue
		}
		ctx, cancel := rpcCtx(x)
		// a creation time in the future allows expiration times beyond the lifetime
		exp := start.Add(time.Duration(k.ExpIn) * time.Millisecond)
		cr := exp.Add(-time.Duration(cs.TTL) * time.Second)
		r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: tsAt(exp), Attributes: &pb.Ticket_FilterableData{CreationTime: tsAt(cr)}}})
		cancel()
		if err != nil {
			if m, d := c.CrashedSoon(err); d {
				return bad("%s", m)
			}
			return live("CreateTicket failed: %v", err)
		}
		ms[i] = &m5{id: r.GetTicketId(), exp: exp, inactive: true, idMS: idMS(r.GetTicketId())}
		if k.Act {
			acts = append(acts, ms[i].id)
			actm = append(actm, ms[i])
		}
	}
	if len(acts) > 0 {
		if r := send(true, "activate", acts, ""); r != nil {
			return *r
		}
	}
	if r := pass(); r != nil {
		return *r
	}
	for _, m := range actm {
		if time.Now().UnixMilli()+2 > m.idMS+ttlMS {
			m.mayGone = true
		}
		m.inactive = false
	}
	wasActive := map[int]bool{}
	for i, k := range cs.Ts {
		wasActive[i] = k.Act
	}
	watch := func(i int) *R {
		m := ms[i]
		end := m.idMS + ttlMS + addMS
		must := m.asg != "" && !m.asgMust && !m.asgMay
		never := m.asg == "" || m.asgMust
		d := 300 * time.Millisecond
		if must {
			d = x.T(8 * time.Second)
		}
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		st, err := c.Client.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: []string{m.id}})
		var got *pb.StreamedWatchAssignmentsResponse
		if err == nil {
			got, err = st.Recv()
		}
		now := time.Now().UnixMilli()
		if m, d := c.CrashedSoon(err); d {
			r := bad("%s", m)
			return &r
		}
		if got != nil && never {
			r := bad("an assignment (%v) of ticket %s is readable %.2f s after its id was assigned although lifetimes are %d + %d s and the assignment was %q", got.GetAssignment(), m.id, float64(now-m.idMS)/1000, cs.TTL, cs.Add, m.asg)
			return &r
		}
		if got != nil && got.GetAssignment().GetConnection() != m.asg {
			r := bad("the assignment of ticket %s is %q instead of %q", m.id, got.GetAssignment().GetConnection(), m.asg)
			return &r
		}
		if got == nil && must && now < end-2 {
			r := live("the assignment %q of ticket %s is not readable %.2f s after its id was assigned although lifetimes are %d + %d s (%v)", m.asg, m.id, float64(now-m.idMS)/1000, cs.TTL, cs.Add, err)
			return &r
		}
		if never && m.asgMust {
			lab["assignment-dropped"] = true
		}
		if got != nil {
			lab["assignment-readable"] = true
		}
		return nil
	}
	res := R{}
	check := func(when string) *R {
		if r := pass(); r != nil {
			return r
		}
		must, may := []string{}, map[string]bool{}
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		q1 := time.Now()
		if err != nil {
			r := badErr("query", err)
			return &r
		}
		g := map[string]int{}
		for _, id := range c.ids(got["all"]) {
			g[id]++
		}
		gone, kept := false, false
		for i, m := range ms {
			if m.inactive {
				if wasActive[i] && m.mustGone {
					gone = true
				}
				continue
			}
			if m.mustGone {
				gone = gone || wasActive[i]
				continue
			}
			may[m.id] = true
			if !m.mayGone && !q1.After(m.exp) {
				must = append(must, m.id)
				kept = true
			}
		}
		for id, n := range g {
			if !may[id] || n != 1 {
				d := ""
				for _, m := range ms {
					if m.id == id {
						d = fmt.Sprintf("expired at %v, inactive: %v, id assigned %.2f s ago", m.exp, m.inactive, float64(time.Now().UnixMilli()-m.idMS)/1000)
					}
				}
				r := bad("%s: ticket %s is offered %d times: %s", when, id, n, d)
				return &r
			}
		}
		for _, id := range must {
			if g[id] == 0 {
				d := ""
				for _, m := range ms {
					if m.id == id {
						d = fmt.Sprintf("expires in %v, id assigned %.2f s ago", m.exp.Sub(q1), float64(q1.UnixMilli()-m.idMS)/1000)
					}
				}
				r := bad("%s: active ticket %s is not offered (lifetime %d s): %s", when, id, cs.TTL, d)
				return &r
			}
		}
		if gone && kept {
			res.Nontriv = true
		}
		// bookkeeping
		t0 := time.Now()
		var lo, hi, alo, ahi int
		ss, err := c.Metrics()
		if err != nil {
			return nil
		}
		t1 := time.Now()
		for _, m := range ms {
			end := m.idMS + ttlMS
			if m.inactive {
				// dropped for certain if a pass began after its end: the last one began before t0
				if end > t1.UnixMilli()+2 {
					lo++
					hi++
				} else if end > t0.Add(-1*time.Second).UnixMilli() {
					hi++
				}
			} else if m.mayGone || m.mustGone {
				// no inactive entry either way
			}
			if m.asg != "" && !m.asgMust {
				if !m.asgMay && end+addMS > t1.UnixMilli()+2 {
					alo++
					ahi++
				} else if end+addMS > t0.Add(-1*time.Second).UnixMilli() {
					ahi++
				}
			}
		}
		if v, ok := sumSeries(ss, "om_core_cache_tickets_inactive", "", ""); ok {
			// the gauge of a pass counts the entries that pass dropped as well: only judge when unambiguous
			if int(v) < lo || int(v) > hi {
				r := live("%s: %d inactive entries are kept, expected %d to %d", when, int(v), lo, hi)
				return &r
			}
			for _, m := range ms {
				if m.inactive && m.mustGone {
					lab["inactive-dropped"] = true
					res.Nontriv = true
				}
			}
		}
		if v, ok := sumSeries(ss, "om_core_cache_assignments", "", ""); ok {
			if int(v) < alo || int(v) > ahi {
				r := live("%s: %d assignments are kept, expected %d to %d", when, int(v), alo, ahi)
				return &r
			}
		}
		return nil
	}
	// a case in which a boundary falls into the start is judged like any other: by measured times
	for si, s := range cs.Steps {
		switch s.Op {
		case "wait":
			time.Sleep(time.Duration(s.N) * time.Millisecond)
		case "act", "deact", "assign":
			var ids []string
			for _, i := range s.Refs {
				ids = append(ids, ms[i].id)
			}
			val := fmt.Sprintf("conn-%d", si)
			op := map[string]string{"act": "activate", "deact": "deactivate", "assign": "assign"}[s.Op]
			a := time.Now()
			_ = a
			if r := send(s.API, op, ids, val); r != nil {
				return *r
			}
			// from here on the update is under way; after the pass it is applied
			for _, i := range s.Refs {
				m := ms[i]
				switch s.Op {
				case "deact":
					m.inactive = true
				case "assign":
					m.asg, m.asgMust = val, false
				}
			}
			if s.Op == "act" {
				// inactive tickets may expire until the activation is applied
				if r := pass3(pass, ms, s.Refs, ttlMS); r != nil {
					return *r
				}
				for _, i := range s.Refs {
					if ms[i].mustGone {
						lab["activated-after-end"] = true
					}
					ms[i].inactive = false
					wasActive[i] = true
				}
			} else {
				// the assignment or deactivation is applied somewhere during this pass
				saved := make([]bool, len(ms))
				for i, m := range ms {
					saved[i] = m.mustGone
				}
				sa := map[int]bool{}
				for _, i := range s.Refs {
					sa[i] = ms[i].asgMust
				}
				if r := pass(); r != nil {
					return *r
				}
				if s.Op == "deact" {
					for _, i := range s.Refs {
						// this pass may have begun before the update was applied
						if !saved[i] && !time.Now().After(ms[i].exp) {
							ms[i].mustGone = false
						}
					}
				}
				if s.Op == "assign" {
					for _, i := range s.Refs {
						ms[i].asgMust = sa[i]
					}
				}
			}
		case "check":
			if r := check(fmt.Sprintf("step %d", si)); r != nil {
				return *r
			}
		case "watch":
			if r := pass(); r != nil {
				return *r
			}
			for _, i := range s.Refs {
				if r := watch(i); r != nil {
					r.Bad = fmt.Sprintf("step %d: %s", si, r.Bad)
					return *r
				}
			}
		}
	}
	if r := check("at the end"); r != nil {
		return *r
	}
	if cs.Mem {
		lab["memory"] = true
	}
	for k := range lab {
		res.Labels = append(res.Labels, k)
	}
	return res
}

// pass3 runs a pass during which the given tickets change from inactive to active.
func pass3(pass func() *R, ms []*m5, refs []int, ttlMS int64) *R {
	before := make([]bool, len(ms))
	for i, m := range ms {
		before[i] = m.mustGone
	}
	if r := pass(); r != nil {
		return r
	}
	now := time.Now()
	for _, i := range refs {
		m := ms[i]
		// during this pass the ticket may already have been active: only its expiration is certain
		if !before[i] && !now.After(m.exp) {
			m.mustGone = false
		}
	}
	return nil
}

// flood5: tickets expire while the instance works through a long backlog of updates. An update
// cycle is limited to half a second; with a margin of several cycles for everything else a ticket
// must not be offered any more 3 s after its expiration.
func flood5(x *X, cs *Case5) R {
	e := baseEnv()
	e["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "1000"
	rd, l := x.NewRedis()
	redisEnv(e, l)
	start := time.Now().Truncate(time.Millisecond)
	base := uint64(start.UnixMilli() - 100000)
	exps := map[string]time.Time{}
	far := map[string]bool{}
	var acts [][]string
	for _, k := range cs.Ts {
		tk := &pb.Ticket{ExpirationTime: tsAt(start.Add(time.Duration(k.ExpIn) * time.Millisecond)), Attributes: &pb.Ticket_FilterableData{CreationTime: tsAt(start)}}
		id := rd.Preload(base, [][]string{{"ticket", string(mustMarshal(tk))}})[0]
		exps[id] = tk.ExpirationTime.AsTime()
		far[id] = k.ExpIn > 1000000
		acts = append(acts, []string{"activate", id})
	}
	rd.Preload(base, acts)
	big := &pb.Assignment{Connection: "x", Extensions: map[string]*anypb.Any{}}
	for i := 0; i < 100; i++ {
		big.Extensions[fmt.Sprintf("extension-%d", i)] = &anypb.Any{TypeUrl: "t", Value: []byte("some value")}
	}
	one := []string{"assign", fmt.Sprintf("%d-99999", base), "connection", string(mustMarshal(big))}
	flood := make([][]string, cs.Flood*1000)
	for i := range flood {
		flood[i] = one
	}
	rd.Preload(base+1, flood)
	last := rd.Preload(base+2, [][]string{{"ticket", string(mustMarshal(&pb.Ticket{ExpirationTime: tsAt(start.Add(time.Hour))}))}})[0]
	rd.Preload(base+3, [][]string{{"activate", last}})
	c, err := x.StartCore(e, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	res := R{Labels: []string{"backlog"}}
	seen := map[string]bool{}
	for end := time.Now().Add(x.T(120 * time.Second)); ; {
		q := time.Now()
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			return badErr("query", err)
		}
		g := map[string]bool{}
		for _, id := range c.ids(got["all"]) {
			g[id] = true
			if d := q.Sub(exps[id]); id != last && d > x.T(3*time.Second) {
				return live("ticket %s is offered %.1f s after its expiration time while the instance works through a backlog of %d updates", id, d.Seconds(), len(flood))
			}
		}
		for id := range far {
			if !far[id] {
				if seen[id] && !g[id] && time.Since(exps[id]) < 0 {
					return bad("ticket %s disappeared %v before its expiration time", id, -time.Since(exps[id]))
				}
			} else if seen[id] && !g[id] {
				return bad("active ticket %s is not offered any more", id)
			} else if !g[id] && g[last] {
				return bad("active ticket %s is not offered", id)
			}
		}
		for id := range g {
			seen[id] = true
		}
		if g[last] {
			break
		}
		if time.Since(start) > 6*time.Second {
			res.Nontriv = true
			res.Labels = []string{"long-backlog"}
		}
		if time.Now().After(end) {
			return R{Skip: "slow"}
		}
		time.Sleep(50 * time.Millisecond)
	}
	return res
}
