package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C01: pools = active tickets satisfying all filters. C02: the creation-time filter.

type FTicket struct {
	T     *TicketS
	API   bool // created through the API (else: found in state storage)
	State int  // 0 active, 1 never activated, 2 deactivated again, 3 re-activated
}

type CaseFilter struct {
	Bin     string
	Mem     bool // memory storage
	Tickets []*FTicket
	Pools   []*PoolS
	Keys    []string // pool keys in the profile
}

var bins = []string{"core-ws", "core-dep"}

func genKeys(t *rapid.T, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("p%d", i)
		if rapid.IntRange(0, 9).Draw(t, "key") == 0 {
			out[i] = pick(t, []string{"", "pool one", "é", "P0"}, "keyx") + fmt.Sprint(i)
		}
	}
	return out
}

// setup creates the tickets of a filter case and brings them into their states. Returns the id of
// each ticket.
func setupTickets(x *X, bin string, mem bool, fts []*FTicket, env map[string]string) (*Core, []string, *R) {
	e := baseEnv()
	for k, v := range env {
		e[k] = v
	}
	var rd *FakeRedis
	ids := make([]string, len(fts))
	exp := &TS{S: time.Now().Add(2 * time.Hour).Unix()}
	if !mem {
		r, l := x.NewRedis()
		rd = r
		redisEnv(e, l)
		for i, f := range fts {
			if !f.API {
				tk := *f.T
				p := tk.PB()
				if tk.Ex == nil {
					p.ExpirationTime = exp.PB()
				}
				p.Id = ""
				ids[i] = r.Add("ticket", string(mustMarshal(p)))
			}
		}
	}
	c, err := x.StartCore(e, bin)
	if err != nil {
		return nil, nil, &R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	ctx, cancel := rpcCtx(x)
	defer cancel()
	var wg sync.WaitGroup
	errs := make([]error, len(fts))
	for i, f := range fts {
		if !f.API && !mem {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: f.T.PB()})
			errs[i] = err
			if err == nil {
				ids[i] = r.GetTicketId()
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			if m, d := c.CrashedSoon(err); d {
				r := bad("%s", m)
				return nil, nil, &r
			}
			r := live("creating ticket %d failed: %v", i, err)
			return nil, nil, &r
		}
	}
	var act, deact, react []string
	for i, f := range fts {
		switch f.State {
		case 0:
			act = append(act, ids[i])
		case 2:
			act = append(act, ids[i])
			deact = append(deact, ids[i])
		case 3:
			act = append(act, ids[i])
			deact = append(deact, ids[i])
			react = append(react, ids[i])
		}
	}
	do := func(l []string, activate bool) *R {
		if len(l) == 0 {
			return nil
		}
		if rd != nil && !fts[0].API {
			op := "deactivate"
			if activate {
				op = "activate"
			}
			for _, id := range l {
				rd.Add(op, id)
			}
			return nil
		}
		for len(l) > 0 {
			some := l[:min(len(l), 450)] // the limit is 500
			l = l[len(some):]
			var err error
			if activate {
				_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: some})
			} else {
				_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: some})
			}
			if err != nil {
				if m, d := c.CrashedSoon(err); d {
					r := bad("%s", m)
					return &r
				}
				r := live("state update failed: %v", err)
				return &r
			}
		}
		return nil
	}
	if r := do(act, true); r != nil {
		return nil, nil, r
	}
	if r := do(deact, false); r != nil {
		return nil, nil, r
	}
	if r := do(react, true); r != nil {
		return nil, nil, r
	}
	if err := c.Sync(); err != nil {
		r := badErr("waiting for replication", err)
		return nil, nil, &r
	}
	return c, ids, nil
}

func isActiveState(s int) bool { return s == 0 || s == 3 }

func poolMap(keys []string, ps []*PoolS) map[string]*pb.Pool {
	out := map[string]*pb.Pool{}
	for i, p := range ps {
		out[keys[i]] = p.PB()
	}
	return out
}

func init() {
	register(&Check{
		ID:       "C01",
		Rule:     "A case is 1-14 (rarely up to 1800) tickets (any mix of active, never activated, deactivated, re-activated; created through the API or found in state storage) and 1-10 (rarely up to 140) pools with generated filters, some with dozens of filters; every (pool, ticket) verdict of the server is compared with a reference evaluator. Non-trivial: some pool with at least one filter has both a member and an active non-member.",
		Quick:    1600,
		Thorough: 40000,
		New:      func() any { return &CaseFilter{} },
		Gen: func(t *rapid.T) any {
			c := &CaseFilter{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 0}
			n := rapid.IntRange(1, 14).Draw(t, "nt")
			var raw []*TicketS
			for i := 0; i < n; i++ {
				tk := genTicket(t, true)
				raw = append(raw, tk)
				st := 0
				if k := rapid.IntRange(0, 9).Draw(t, "st"); k >= 7 {
					st = k - 6
				}
				c.Tickets = append(c.Tickets, &FTicket{T: tk, API: rapid.IntRange(0, 2).Draw(t, "api") == 0, State: st})
			}
			m := rapid.IntRange(1, 10).Draw(t, "np")
			switch rapid.IntRange(0, 99).Draw(t, "scale") {
			case 31: // many tickets
				for i := rapid.SampledFrom([]int{500, 1100, 1800}).Draw(t, "many"); len(c.Tickets) < i; {
					c.Tickets = append(c.Tickets, &FTicket{T: raw[len(c.Tickets)%n], State: len(c.Tickets) / 7 % 4, API: c.Mem})
				}
			case 57: // many pools
				m = rapid.SampledFrom([]int{33, 70, 140}).Draw(t, "manyp")
			}
			for i := 0; i < m; i++ {
				p := genPool(t)
				aimPool(t, p, raw)
				if rapid.IntRange(0, 19).Draw(t, "widep") == 11 {
					p = widePool(t, raw[rapid.IntRange(0, n-1).Draw(t, "widet")])
				}
				c.Pools = append(c.Pools, p)
			}
			c.Keys = genKeys(t, m)
			return c
		},
		Run: func(x *X, ci any) R {
			cs := ci.(*CaseFilter)
			c, ids, r := setupTickets(x, cs.Bin, cs.Mem, cs.Tickets, nil)
			if r != nil {
				return *r
			}
			got, err := c.Query(poolMap(cs.Keys, cs.Pools))
			if err != nil {
				return badErr("query", err)
			}
			res := R{}
			lab := map[string]bool{}
			for i, p := range cs.Pools {
				want := []string{}
				nonMember := false
				for k, f := range cs.Tickets {
					if !isActiveState(f.State) {
						continue
					}
					if p.matchNoTime(f.T) {
						want = append(want, ids[k])
						if f.T.NoAttr {
							lab["no-attributes-member"] = true
						}
						for _, d := range p.Dbls {
							v := float64(f.T.Dbl[d.Arg])
							if v == float64(d.Min) || v == float64(d.Max) {
								lab["bound-included"] = true
							}
						}
					} else {
						nonMember = true
						if f.T.NoAttr {
							lab["no-attributes-nonmember"] = true
						}
						for _, d := range p.Dbls {
							if v, ok := f.T.Dbl[d.Arg]; ok {
								if math.IsNaN(float64(v)) {
									lab["nan-excluded"] = true
								}
								if math.IsInf(float64(v), 0) {
									lab["inf-value"] = true
								}
								if float64(v) == float64(d.Min) || float64(v) == float64(d.Max) {
									lab["bound-excluded"] = true
								}
							}
						}
					}
				}
				sort.Strings(want)
				g := c.ids(got[cs.Keys[i]])
				if !eqStrs(g, want) {
					return bad("pool %q (%+v): %s", cs.Keys[i], p.PB(), diffStrs(g, want))
				}
				if len(p.Tags)+len(p.Strs)+len(p.Dbls) > 0 && len(want) > 0 && nonMember {
					res.Nontriv = true
				}
			}
			for k := range got {
				ok := false
				for _, key := range cs.Keys {
					ok = ok || key == k
				}
				if !ok {
					return bad("a pool %q that is not in the profile reached the match function", k)
				}
			}
			for k := range lab {
				res.Labels = append(res.Labels, k)
			}
			if cs.Mem {
				res.Labels = append(res.Labels, "memory")
			}
			return res
		},
	})

	register(&Check{
		ID:       "C02",
		Rule:     "A case is 1-14 active tickets with generated creation times and 1-8 pools with creation-time filters whose ends are drawn from the same instants (and their neighbours), some invalid, combined with other filters. All verdicts of a case must agree with the specification, or all with the exactly modelled known defect. Non-trivial: some creation-time verdict differs between tickets of one pool under either model, or an invalid filter is present next to a pool with members.",
		Quick:    1400,
		Thorough: 30000,
		New:      func() any { return &CaseFilter{} },
		Gen: func(t *rapid.T) any {
			c := &CaseFilter{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 0}
			base := []int64{-100000, 1, 1000000000, 1700000000, 1900000000, 4102444800}
			var points []*TS
			np := rapid.IntRange(1, 4).Draw(t, "npts")
			for i := 0; i < np; i++ {
				s := base[rapid.IntRange(0, len(base)-1).Draw(t, "pts")]
				n := int32([]int{0, 0, 1, 500000000, 999999999}[rapid.IntRange(0, 4).Draw(t, "ptn")])
				points = append(points, &TS{s, n})
			}
			near := func(name string) *TS {
				p := *points[rapid.IntRange(0, len(points)-1).Draw(t, name)]
				switch rapid.IntRange(0, 5).Draw(t, name+"d") {
				case 0:
					p.N++
				case 1:
					p.N--
				case 2:
					p.S++
				case 3:
					p.S--
				}
				if p.N < 0 {
					p.N, p.S = 999999999, p.S-1
				}
				if p.N > 999999999 {
					p.N, p.S = 0, p.S+1
				}
				return &p
			}
			n := rapid.IntRange(1, 14).Draw(t, "nt")
			var raw []*TicketS
			for i := 0; i < n; i++ {
				tk := &TicketS{}
				if rapid.IntRange(0, 2).Draw(t, "attrs") == 0 {
					tk = genTicket(t, false)
				}
				tk.Cr = near("cr")
				raw = append(raw, tk)
				// through the API the expiration follows from the creation time: only storage entries here
				c.Tickets = append(c.Tickets, &FTicket{T: tk, API: false, State: 0})
			}
			c.Mem = false
			m := rapid.IntRange(1, 8).Draw(t, "np")
			for i := 0; i < m; i++ {
				p := &PoolS{}
				if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
					p = genPool(t)
					aimPool(t, p, raw)
				}
				switch rapid.IntRange(0, 9).Draw(t, "crk") {
				case 0: // no time filter
				case 1: // invalid
					inv := &TS{S: 1700000000, N: 1000000000}
					if rapid.Bool().Draw(t, "invk") {
						inv = &TS{S: 253402300800, N: 0}
					}
					if rapid.Bool().Draw(t, "invn") {
						inv = &TS{S: 5, N: -1}
					}
					p.Cr = &CrF{Start: near("s"), End: near("e"), Bounds: int32(rapid.IntRange(0, 3).Draw(t, "b"))}
					if rapid.Bool().Draw(t, "inve") {
						p.Cr.End = inv
					} else {
						p.Cr.Start = inv
					}
					if rapid.IntRange(0, 3).Draw(t, "invone") == 3 { // the other end is missing
						if p.Cr.End == inv {
							p.Cr.Start = nil
						} else {
							p.Cr.End = nil
						}
					}
				default:
					p.Cr = &CrF{Start: near("s"), End: near("e"), Bounds: int32(rapid.IntRange(0, 3).Draw(t, "b"))}
				}
				c.Pools = append(c.Pools, p)
			}
			c.Keys = genKeys(t, m)
			return c
		},
		Run: func(x *X, ci any) R {
			cs := ci.(*CaseFilter)
			c, ids, r := setupTickets(x, cs.Bin, cs.Mem, cs.Tickets, nil)
			if r != nil {
				return *r
			}
			got, err := c.Query(poolMap(cs.Keys, cs.Pools))
			if err != nil {
				return badErr("query", err)
			}
			res := R{}
			specOK, defectOK := "", ""
			models := func(inv bool, p *PoolS) []string {
				out := []string{}
				if !p.validTime() {
					return out
				}
				for k, f := range cs.Tickets {
					in := p.timeSpec(f.T.Cr.Time())
					if inv {
						in = p.timeInverted(f.T.Cr.Time())
					}
					if in && p.matchNoTime(f.T) {
						out = append(out, ids[k])
					}
				}
				sort.Strings(out)
				return out
			}
			for i, p := range cs.Pools {
				g := c.ids(got[cs.Keys[i]])
				ws, wd := models(false, p), models(true, p)
				if !eqStrs(g, ws) && specOK == "" {
					specOK = fmt.Sprintf("pool %q (%v): %s", cs.Keys[i], p.PB(), diffStrs(g, ws))
				}
				if !eqStrs(g, wd) && defectOK == "" {
					defectOK = fmt.Sprintf("pool %q (%v): %s", cs.Keys[i], p.PB(), diffStrs(g, wd))
				}
				if p.Cr != nil && p.validTime() {
					if (len(ws) > 0 && len(ws) < len(ids)) || (len(wd) > 0 && len(wd) < len(ids)) {
						res.Nontriv = true
					}
					if len(wd) > 0 {
						res.Labels = append(res.Labels, "inverted-member")
					}
					if len(ws) > 0 {
						res.Labels = append(res.Labels, "spec-member")
					}
				}
				if !p.validTime() {
					res.Labels = append(res.Labels, "invalid-filter")
				}
			}
			if specOK != "" {
				if defectOK == "" && isKnown("C02", "creation-time-comparisons-inverted") {
					res.Known = append(res.Known, "creation-time-comparisons-inverted")
					return res
				}
				res.Bad = specOK
				if isKnown("C02", "creation-time-comparisons-inverted") {
					res.Bad += "; nor is it the known defect: " + defectOK
				}
			}
			return res
		},
	})
}

var _ = context.Background
