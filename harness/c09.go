package main

import (
	"fmt"
	"sort"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C09: state storage keeps updates for the ticket lifetime and then trims them.

type Pre9 struct {
	Pm  int // age of the update in per mille of the lifetime ...
	MS  int // ... plus this many ms
	Act bool
	N   int
}

type Op9 struct {
	Op   string // create, act, deact, assign, empty, match, wait, restart, bulk
	I    []int  `json:",omitempty"`
	N    int    `json:",omitempty"`
	Fail bool   `json:",omitempty"` // storage refuses the first update of the call
}

type Case9 struct {
	Bin   string
	TTL   int // 0: unset
	Batch int
	InMax int
	Pre   []*Pre9
	Ops   []*Op9
}

func genCase9(t *rapid.T) any {
	c := &Case9{Bin: pick(t, bins, "bin")}
	c.TTL = rapid.SampledFrom([]int{1, 2, 3, 10, 60, 600, 0, 3600, 86400, 2592000, 2147483647}).Draw(t, "ttl")
	c.Batch = rapid.SampledFrom([]int{50, 1, 2, 7}).Draw(t, "batch")
	c.InMax = rapid.SampledFrom([]int{10000, 1, 10}).Draw(t, "inmax")
	n := 0
	for i := rapid.IntRange(0, 8).Draw(t, "npre"); i > 0; i-- {
		p := &Pre9{Act: rapid.IntRange(0, 2).Draw(t, "pact") > 0, N: rapid.SampledFrom([]int{1, 1, 2, 30, 150}).Draw(t, "pn")}
		switch rapid.IntRange(0, 3).Draw(t, "age") {
		case 0:
			p.Pm = rapid.IntRange(0, 3000).Draw(t, "pm")
		case 1: // just expired
			p.Pm, p.MS = 1000, rapid.IntRange(0, 1500).Draw(t, "over")
		case 2: // just not expired
			p.Pm, p.MS = 1000, -rapid.IntRange(0, 5000).Draw(t, "under")
		case 3:
			p.Pm, p.MS = 0, rapid.IntRange(0, 3000).Draw(t, "young")
		}
		n += p.N
		c.Pre = append(c.Pre, p)
	}
	for i := rapid.IntRange(1, 9).Draw(t, "nops"); i > 0; i-- {
		o := &Op9{Op: pick(t, []string{"create", "create", "act", "deact", "assign", "empty", "match", "wait", "restart", "bulk"}, "op")}
		switch o.Op {
		case "wait":
			o.N = rapid.IntRange(1, 900).Draw(t, "ms")
		case "bulk":
			o.N = rapid.IntRange(2, 60).Draw(t, "bn")
			n += o.N
		case "create":
			n++
		case "act", "deact", "assign", "empty", "match":
			if n == 0 {
				o.Op = "create"
				n++
				break
			}
			o.I = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 6).Draw(t, "i")
			o.Fail = rapid.IntRange(0, 4).Draw(t, "fail") == 4
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func run9(x *X, ci any) R {
	cs := ci.(*Case9)
	rd, l := x.NewRedis()
	env := baseEnv()
	redisEnv(env, l)
	ttl := int64(cs.TTL) * 1000
	if cs.TTL == 0 {
		ttl = 600 * 1000
	} else {
		env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(cs.TTL)
	}
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Batch)
	env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(cs.InMax)
	// the history so far
	now := time.Now().UnixMilli()
	type pre struct {
		ms  int64
		act bool
	}
	var pres []pre
	for _, p := range cs.Pre {
		age := ttl/1000*int64(p.Pm) + int64(p.MS)
		if ms := now - age; age >= 0 && ms > 1000 {
			for k := 0; k < p.N; k++ {
				pres = append(pres, pre{ms, p.Act})
			}
		}
	}
	sort.SliceStable(pres, func(i, j int) bool { return pres[i].ms < pres[j].ms })
	var ids []string
	exp := map[string]int64{}
	for _, p := range pres {
		e := p.ms + ttl
		tk := &pb.Ticket{ExpirationTime: tsAt(time.UnixMilli(e)), Attributes: &pb.Ticket_FilterableData{CreationTime: tsAt(time.UnixMilli(p.ms))}}
		id := rd.AddAt(uint64(p.ms), "ticket", string(mustMarshal(tk)))
		if p.act {
			rd.AddAt(uint64(p.ms), "activate", id)
		}
		ids = append(ids, id)
		exp[id] = e
	}
	lab := map[string]bool{}
	removedN, keptOld := 0, 0
	// never: whatever is gone from the stream must be older than the lifetime
	never := func(when string) *R {
		stored := map[string]bool{}
		log := rd.LogCopy()
		for _, e := range rd.Stored() {
			stored[e.ID()] = true
		}
		n := time.Now().UnixMilli()
		removedN = 0
		for _, e := range log {
			if !stored[e.ID()] {
				removedN++
				if int64(e.MS) >= n-ttl {
					r := bad("%s: update %s %v was trimmed at the age of at most %d ms; the ticket lifetime is %d ms", when, e.ID(), head(fmt.Sprintf("%q", e.Fields), 80), n-int64(e.MS), ttl)
					return &r
				}
			}
		}
		return nil
	}
	// trimmed: after a batch, what had outlived the lifetime when the call began is gone
	trimmed := func(when string, began int64) *R {
		for _, e := range rd.Stored() {
			if int64(e.MS) < began-ttl {
				r := bad("%s: update %s is still stored at the age of %d ms although a batch has been written; the ticket lifetime is %d ms", when, e.ID(), began-int64(e.MS), ttl)
				return &r
			}
		}
		return nil
	}
	var c *Core
	capped := false
	w := &World{x: x}
	start := func() *R {
		if c != nil {
			c.Kill()
		}
		var err error
		c, err = x.StartCore(env, cs.Bin)
		if err != nil {
			r := R{Skip: "start: " + err.Error()}
			return &r
		}
		c.Redis = rd
		w.c = c
		w.startMmf()
		return nil
	}
	compare := func(when string) *R {
		for k := 0; k < 3; k++ {
			if err := c.sync1(x.T(30 * time.Second)); err != nil {
				r := badErr(when, err)
				return &r
			}
		}
		ch, _ := fold7(rd.LogCopy())
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		q1 := time.Now().UnixMilli()
		if err != nil {
			r := badErr("query", err)
			return &r
		}
		g := map[string]bool{}
		for _, t := range got["all"] {
			g[t.GetId()] = true
		}
		for _, id := range ids {
			if id == "" || len(ch[id]) == 0 {
				continue
			}
			on := ch[id][len(ch[id])-1].On
			if on && exp[id] > q1+5 && !g[id] {
				ms, _, _ := parseID(id, 0)
				r := bad("%s: active ticket %s, created %d ms ago, is not offered; the ticket lifetime is %d ms", when, id, q1-int64(ms), ttl)
				return &r
			}
			if g[id] && !on {
				r := bad("%s: inactive ticket %s is offered", when, id)
				return &r
			}
			if on && exp[id] > q1 {
				keptOld++
			}
		}
		return nil
	}
	if r := start(); r != nil {
		return *r
	}
	created := func(id string) {
		ids = append(ids, id)
		ms, _, _ := parseID(id, 0)
		// the expiration time was fixed a little before the id
		exp[id] = int64(ms) + ttl - 2000
	}
	for oi, o := range cs.Ops {
		when := fmt.Sprintf("operation %d (%s)", oi, o.Op)
		began := time.Now().UnixMilli()
		before := rd.LogLen()
		var refs []string
		for _, i := range o.I {
			if i < len(ids) {
				refs = append(refs, ids[i])
			}
		}
		if o.Fail && len(refs) > 0 {
			hit := false
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "XADD" && !hit {
					hit = true
					return Action{Kind: ActErr, Msg: "OOM"}
				}
				return Action{}
			})
		}
		ctx, cancel := rpcCtx(x)
		var err error
		switch o.Op {
		case "wait":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "restart":
			if r := start(); r != nil {
				return *r
			}
			if r := compare(when); r != nil {
				return *r
			}
			lab["restart"] = true
		case "create", "bulk":
			n := max(o.N, 1)
			type cr struct {
				id  string
				err error
			}
			res := make(chan cr, n)
			for k := 0; k < n; k++ {
				go func() {
					r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
					res <- cr{r.GetTicketId(), err}
				}()
			}
			for k := 0; k < n; k++ {
				r := <-res
				if r.err != nil {
					err = r.err
				} else {
					created(r.id)
				}
			}
		case "act":
			if len(refs) > 0 {
				_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: refs})
			}
		case "deact":
			if len(refs) > 0 {
				_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: refs})
			}
		case "assign", "empty":
			ro := &pb.Roster{Assignment: &pb.Assignment{}}
			if o.Op == "assign" {
				ro.Assignment.Connection = "c"
			}
			for _, id := range refs {
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
			}
			_, err = c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
		case "match":
			name := fmt.Sprintf("m%d", oi)
			w.mu.Lock()
			w.plans[name] = &matchPlan{ids: refs}
			w.mu.Unlock()
			_, err = c.Invoke(ctx, &pb.Profile{Name: name}, w.mmf.Spec(name))
		}
		cancel()
		rd.SetHook(nil)
		if m, d := c.CrashedSoon(err); d {
			return bad("%s: %s", when, m)
		}
		if err != nil && !o.Fail && o.Op != "empty" {
			return badErr(when, err)
		}
		if r := never(when); r != nil {
			return *r
		}
		rd.mu.Lock()
		limit := rd.MaxLen
		rd.mu.Unlock()
		if limit > 0 && limit < 3000000 && !capped && o.Op != "restart" {
			// a limit for the number of stored updates: exceed it with young ones
			capped = true
			lab["capped"] = true
			n := time.Now().UnixMilli()
			for k := rd.LogLen(); k < limit+300; k++ {
				rd.AddAt(uint64(n), "activate", "1-0")
			}
			ctx, cancel := rpcCtx(x)
			_, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{"1-0"}})
			cancel()
			if err == nil {
				if r := never(when + " and many other updates"); r != nil {
					return *r
				}
			}
		}
		if rd.LogLen() > before && o.Op != "restart" && o.Op != "wait" {
			old := removedN
			if r := trimmed(when, began); r != nil {
				return *r
			}
			if old > 0 {
				lab["removed"] = true
			}
		}
	}
	if r := start(); r != nil {
		return *r
	}
	if r := compare("an instance started at the end"); r != nil {
		return *r
	}
	if r := never("at the end"); r != nil {
		return *r
	}
	if cs.TTL == 0 {
		lab["default-lifetime"] = true
	}
	r := R{Nontriv: lab["removed"] && keptOld > 0}
	for k := range lab {
		r.Labels = append(r.Labels, k)
	}
	return r
}

func init() {
	register(&Check{
		ID:       "C09",
		Rule:     "A case is a ticket lifetime from 1 s to 68 years (or the default), a stored history whose updates have ages from 0 to 3 lifetimes with emphasis on the boundary, and 1-9 operations (calls of every kind with batches of 1-60 updates, some of whose updates are refused, waits, restarts). After each batch what had outlived the lifetime must be gone from the stream, never anything younger, and an instance started then offers every active unexpired ticket. Non-trivial: something was removed and an active ticket survived.",
		Quick:    2000,
		Thorough: 12000,
		MaxSh:    20,
		New:      func() any { return &Case9{} },
		Gen:      genCase9,
		Run:      run9,
		Assume:   []string{"The clocks of the instance and of the state storage agree."},
	})
}
