package main

import (
	"math/rand"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C22: pools while the cache changes.

type Case22 struct {
	Bin   string
	Mem   bool
	On    int // preloaded, active
	Off   int // preloaded, never activated or deactivated
	Aged  int // of those, so many outlive the ticket lifetime during the case
	Poll  string
	Pools []string
	Kinds []string
	Inv   int // concurrent invokers
	Ms    int
	Seed  int64
}

var kinds22 = []string{"create", "create", "api", "churn", "flip", "redo", "short", "match"}

func genCase22(t *rapid.T) any {
	c := &Case22{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 5).Draw(t, "mem") == 4, Seed: int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))}
	c.On = rapid.SampledFrom([]int{300, 3000, 20000, 10, 50000}).Draw(t, "on")
	c.Off = rapid.SampledFrom([]int{300, 3000, 10, 20000}).Draw(t, "off")
	if c.Mem {
		c.On, c.Off = min(c.On, 400), min(c.Off, 200)
	} else if rapid.IntRange(0, 2).Draw(t, "ag") == 1 {
		c.Aged = rapid.SampledFrom([]int{200, 20000, 3000}).Draw(t, "aged")
		if c.Aged == 20000 {
			c.On, c.Off = min(c.On, 300), min(c.Off, 300)
		}
	}
	c.Poll = pick(t, []string{"10000", "1000", "50"}, "poll")
	if c.On+c.Off+c.Aged > 3000 {
		c.Poll = "10000" // every poll walks through the whole cache
	}
	c.Pools = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"all", "red", "hi", "all2", "none"}), 1, 4, func(s string) string { return s }).Draw(t, "pools")
	c.Kinds = rapid.SliceOfN(rapid.SampledFrom(kinds22), 1, 5).Draw(t, "kinds")
	c.Inv = rapid.IntRange(1, 3).Draw(t, "inv")
	if c.Aged > 0 {
		c.Inv += 2
	}
	c.Ms = rapid.SampledFrom([]int{600, 300, 1200}).Draw(t, "ms")
	if slices.Contains(c.Kinds, "short") && rapid.Bool().Draw(t, "long") {
		c.Ms = 3000
	}
	return c
}

type ev22 struct {
	on     bool
	lo, hi time.Time // it was stored between these
}

type tk22 struct {
	id   string
	i    int
	on   bool // state before the first event
	evs  []ev22
	exp  time.Time // zero: not during the case
	made time.Time
	off  bool // was inactive when its lifetime ended
}

func pool22(name string) *pb.Pool {
	switch name {
	case "red":
		return &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "red"}}}
	case "hi":
		return &pb.Pool{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: 0.5, Maximum: 2}}}
	case "none":
		return &pb.Pool{StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "nope", Value: "x"}}}
	}
	return &pb.Pool{}
}

func in22(name string, i int) bool {
	switch name {
	case "red":
		return i%3 == 0
	case "hi":
		return i%2 == 0
	case "none":
		return false
	}
	return true
}

func (k *tk22) pb(exp time.Time) *pb.Ticket {
	t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"x"}, DoubleArgs: map[string]float64{"d": 0.25}, CreationTime: tsNow()}}
	if k.i%3 == 0 {
		t.Attributes.Tags = append(t.Attributes.Tags, "red")
	}
	if k.i%2 == 0 {
		t.Attributes.DoubleArgs["d"] = 1
	}
	if !exp.IsZero() {
		t.ExpirationTime = tsAt(exp)
	}
	return t
}

type inv22 struct {
	begin, end time.Time
	pools      map[string][]string
}

func run22(x *X, ci any) (res R) {
	cs := ci.(*Case22)
	env := baseEnv()
	env["OM_MAX_STATE_UPDATES_PER_CALL"] = "100000"
	env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = cs.Poll
	var mu sync.Mutex
	var all []*tk22
	n := 0
	mk := func() *tk22 {
		mu.Lock()
		defer mu.Unlock()
		k := &tk22{i: n}
		n++
		all = append(all, k)
		return k
	}
	var rd *FakeRedis
	far := time.Now().Add(580 * time.Second)
	var on, off []*tk22
	if !cs.Mem {
		var l *listener
		rd, l = x.NewRedis()
		redisEnv(env, l)
		// those whose lifetime (600 s) ends soon come first
		now := time.Now().UnixMilli()
		for g := 0; g < 10 && cs.Aged > 0; g++ {
			var es, as [][]string
			var ks []*tk22
			for i := 0; i < cs.Aged/10; i++ {
				k := mk()
				k.off = true
				ks = append(ks, k)
				es = append(es, []string{"ticket", string(mustMarshal(k.pb(time.Now().Add(time.Hour))))})
			}
			ids := rd.Preload(uint64(now-600000+1200+int64(g*cs.Ms/8)), es)
			for i, id := range ids {
				ks[i].id = id
				if i%4 == 3 {
					as = append(as, []string{"activate", id}, []string{"deactivate", id})
				}
			}
			rd.Preload(uint64(now-600000+1200+int64(g*cs.Ms/8)), as)
		}
		var es, as [][]string
		for i := 0; i < cs.On+cs.Off; i++ {
			k := mk()
			k.on = i < cs.On
			if k.on {
				on = append(on, k)
			} else {
				off = append(off, k)
			}
			es = append(es, []string{"ticket", string(mustMarshal(k.pb(far)))})
		}
		ids := rd.Preload(uint64(now-1000), es)
		for i, id := range ids {
			k := all[len(all)-len(ids)+i]
			k.id = id
			if k.on || i%4 == 0 {
				as = append(as, []string{"activate", id})
			}
			if !k.on && i%4 == 0 {
				as = append(as, []string{"deactivate", id})
			}
		}
		rd.Preload(uint64(now-900), as)
	}
	c, err := x.StartCore(env, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	w := &World{x: x, c: c}
	create := func(k *tk22) *R {
		ctx, cancel := rpcCtx(x)
		defer cancel()
		r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: k.pb(time.Time{})})
		if err != nil {
			return w.callErr("CreateTicket", err)
		}
		mu.Lock()
		k.id = r.GetTicketId()
		mu.Unlock()
		return nil
	}
	// update changes the state of a ticket, directly in storage or through the API
	update := func(k *tk22, set bool, api bool) *R {
		e := ev22{on: set, lo: time.Now()}
		if api || rd == nil {
			ctx, cancel := rpcCtx(x)
			defer cancel()
			var err error
			if set {
				_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{k.id}})
			} else {
				_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{k.id}})
			}
			if err != nil {
				return w.callErr("(de)activation", err)
			}
		} else {
			rd.Add(map[bool]string{true: "activate", false: "deactivate"}[set], k.id)
		}
		e.hi = time.Now()
		k.evs = append(k.evs, e)
		return nil
	}
	if rd == nil {
		var wg sync.WaitGroup
		var rr atomic.Pointer[R]
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < cs.On+cs.Off; i += 16 {
					k := mk()
					if r := create(k); r != nil {
						rr.Store(r)
						return
					}
					mu.Lock()
					if i < cs.On {
						on = append(on, k)
					} else {
						off = append(off, k)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if r := rr.Load(); r != nil {
			return *r
		}
		var ids []string
		for _, k := range on {
			k.on = true
			ids = append(ids, k.id)
		}
		ctx, cancel := rpcCtx(x)
		defer cancel()
		if _, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids}); err != nil {
			return *w.callErr("ActivateTickets", err)
		}
	}
	if err := c.sync1(x.T(40 * time.Second)); err != nil {
		return badErr("sync", err)
	}
	start := time.Now()
	stop := start.Add(time.Duration(cs.Ms) * time.Millisecond)
	if cs.Aged > 0 {
		stop = stop.Add(1200 * time.Millisecond)
	}
	if d := time.Now().Add(x.T(2 * time.Second)); d.After(stop) && x.Slow > 1 {
		stop = d
	}
	var fail atomic.Pointer[R]
	running := func() bool { return fail.Load() == nil && time.Now().Before(stop) }
	type span struct{ a, b time.Time }
	var syncs []span
	var wg sync.WaitGroup
	bg := func(f func() *R) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r := f(); r != nil {
				fail.CompareAndSwap(nil, r)
			}
		}()
	}
	bg(func() *R {
		for running() {
			a := time.Now()
			if err := c.sync1(x.T(30 * time.Second)); err != nil {
				r := badErr("sync", err)
				return &r
			}
			syncs = append(syncs, span{a, time.Now()})
			time.Sleep(5 * time.Millisecond)
		}
		return nil
	})
	// some of the preloaded tickets belong to the writers
	var cutMu sync.Mutex
	cut := func(l *[]*tk22, k int) []*tk22 {
		cutMu.Lock()
		defer cutMu.Unlock()
		k = min(k, len(*l)/2)
		o := (*l)[:k]
		*l = (*l)[k:]
		return o
	}
	onLeft, offLeft := on, off
	var writes atomic.Int64
	maxWrites := map[string]int64{"10000": 20000, "1000": 6000, "50": 1000}[cs.Poll]
	for wi, kind := range cs.Kinds {
		rnd := rand.New(rand.NewSource(cs.Seed + int64(wi)*7919))
		api := rnd.Intn(4) == 0
		var mine, mineOff []*tk22
		switch kind {
		case "flip", "match":
			mine = append(append(mine, cut(&onLeft, 100)...), cut(&offLeft, 100)...)
		case "redo":
			mine, mineOff = cut(&onLeft, 100), cut(&offLeft, 100)
		}
		pause := func() {
			writes.Add(1)
			if rnd.Intn(40) == 0 {
				time.Sleep(time.Duration(rnd.Intn(3000)) * time.Microsecond)
			}
		}
		bg(func() *R {
			var live []*tk22
			for running() && writes.Load() < maxWrites {
				pause()
				switch kind {
				case "create":
					k := mk()
					if rd == nil {
						if r := create(k); r != nil {
							return r
						}
						continue
					}
					mu.Lock()
					k.id = rd.Add("ticket", string(mustMarshal(k.pb(far))))
					mu.Unlock()
				case "api":
					var g sync.WaitGroup
					var rr atomic.Pointer[R]
					for i := 0; i < 12; i++ {
						k := mk()
						g.Add(1)
						go func() {
							defer g.Done()
							if r := create(k); r != nil {
								rr.Store(r)
							}
						}()
					}
					g.Wait()
					if r := rr.Load(); r != nil {
						return r
					}
				case "churn", "short":
					if len(live) < 50 || rnd.Intn(3) == 0 && len(live) < 2000 {
						k := mk()
						exp := far
						if kind == "short" {
							exp = time.Now().Add(time.Duration(20+rnd.Intn(300)) * time.Millisecond)
							k.exp = exp
						}
						if rd == nil {
							k.exp = time.Time{}
							if r := create(k); r != nil {
								return r
							}
						} else {
							mu.Lock()
							k.id = rd.Add("ticket", string(mustMarshal(k.pb(exp))))
							mu.Unlock()
						}
						live = append(live, k)
						continue
					}
					i := rnd.Intn(len(live))
					k := live[i]
					if r := update(k, len(k.evs) == 0 || !k.evs[len(k.evs)-1].on, api); r != nil {
						return r
					}
					if len(k.evs) > 3 {
						live[i] = live[len(live)-1]
						live = live[:len(live)-1]
					}
				case "flip", "match":
					if len(mine) == 0 {
						return nil
					}
					k := mine[rnd.Intn(len(mine))]
					cur := k.on
					if len(k.evs) > 0 {
						cur = k.evs[len(k.evs)-1].on
					}
					if kind == "match" && cur {
						// deactivated by a match
						e := ev22{lo: time.Now()}
						f := x.NewFn("m", &FnS{Kind: "grpc", M: []*MatchS{{ID: "m", Ros: []*RosS{{Key: "r", T: []TRef{{I: 0}}}}}}}, []string{k.id})
						ctx, cancel := rpcCtx(x)
						_, err := c.Invoke(ctx, &pb.Profile{Name: "m", Pools: map[string]*pb.Pool{"none": pool22("none")}}, f.spec)
						cancel()
						if err != nil {
							return w.callErr("invocation", err)
						}
						e.hi = time.Now()
						k.evs = append(k.evs, e)
						continue
					}
					if r := update(k, !cur, api); r != nil {
						return r
					}
				case "redo":
					if len(mine) > 0 {
						if r := update(mine[rnd.Intn(len(mine))], true, api); r != nil {
							return r
						}
					}
					if len(mineOff) > 0 {
						if r := update(mineOff[rnd.Intn(len(mineOff))], false, api); r != nil {
							return r
						}
					}
				}
			}
			return nil
		})
	}
	// the invocations
	var imu sync.Mutex
	var invs []*inv22
	for g := 0; g < cs.Inv; g++ {
		bg(func() *R {
			var at time.Time
			var rerr error
			var pools map[string][]string
			m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
				imu.Lock()
				at = time.Now()
				imu.Unlock()
				ch, err := readChunks(s)
				p := map[string][]string{}
				for _, k := range ch {
					for name, q := range k.GetProfile().GetPools() {
						for _, t := range q.GetParticipants().GetTickets() {
							if !c.IsSync(t) {
								p[name] = append(p[name], t.GetId())
							}
						}
					}
				}
				imu.Lock()
				rerr, pools = err, p
				imu.Unlock()
				return nil
			})
			prof := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{}}
			for _, p := range cs.Pools {
				prof.Pools[p] = pool22(p)
			}
			for k := 0; running() && k < 150; k++ {
				v := &inv22{begin: time.Now()}
				ctx, cancel := rpcCtx(x)
				_, err := c.Invoke(ctx, prof, m.Spec("f"))
				cancel()
				if err != nil {
					return w.callErr("InvokeMatchmakingFunctions", err)
				}
				imu.Lock()
				v.end, v.pools = at, pools
				re := rerr
				invs = append(invs, v)
				imu.Unlock()
				if re != nil {
					r := live("the function could not read its request: %v", re)
					return &r
				}
				if v.end.Before(v.begin) {
					r := live("the function was not called")
					return &r
				}
			}
			return nil
		})
	}
	wg.Wait()
	if r := fail.Load(); r != nil {
		return *r
	}
	// judge
	by := map[string]*tk22{}
	for _, k := range all {
		if k.id != "" {
			if by[k.id] != nil {
				return bad("two tickets have the id %s", k.id)
			}
			by[k.id] = k
		}
	}
	// conf gives the time at which everything stored by t had certainly been applied
	conf := func(t time.Time, n int) (time.Time, bool) {
		for i, s := range syncs {
			if s.a.After(t) {
				if i+n-1 < len(syncs) {
					return syncs[i+n-1].b, true
				}
				return time.Time{}, false
			}
		}
		return time.Time{}, false
	}
	mustN, notN, changed, expired := 0, 0, 0, 0
	for vi, v := range invs {
		for _, p := range cs.Pools {
			got := map[string]bool{}
			for _, id := range v.pools[p] {
				if got[id] {
					return bad("invocation %d: ticket %s is twice in pool %q", vi, id, p)
				}
				got[id] = true
				if by[id] == nil {
					return bad("invocation %d: pool %q contains an unknown ticket %q", vi, p, id)
				}
			}
			for _, k := range all {
				if k.id == "" {
					continue
				}
				// the states it may have had in the meantime
				was := k.on
				mayOn, mayOff := false, false
				rest := k.evs
				for len(rest) > 0 {
					t, ok := conf(rest[0].hi, 1)
					if !ok || t.After(v.begin) {
						break
					}
					was = rest[0].on
					rest = rest[1:]
				}
				mayOn, mayOff = was, !was
				touched := false
				for _, e := range rest {
					if e.lo.After(v.end) {
						break
					}
					touched = true
					if e.on {
						mayOn = true
					} else {
						mayOff = true
					}
				}
				if touched {
					changed++
				}
				if !k.exp.IsZero() {
					if !k.exp.After(v.end.Add(2 * time.Millisecond)) {
						mayOff = true
					}
					// an update cycle ends after half a second even if there are more updates
					if t, ok := conf(k.exp.Add(x.T(1500*time.Millisecond)), 3); ok && !t.After(v.begin) {
						if got[k.id] && mayOn {
							return live("invocation %d (of %d; the cache held %d tickets) offered ticket %s in pool %q %v after its expiration time", vi, len(invs), len(all), k.id, p, v.begin.Sub(k.exp))
						}
						mayOn = false
						mayOff = true
						expired++
					}
				}
				switch {
				case got[k.id] && (!in22(p, k.i)):
					return bad("invocation %d: ticket %s is in pool %q, whose filter it does not meet", vi, k.id, p)
				case got[k.id] && !mayOn:
					why := "inactive"
					switch {
					case len(k.evs) == 0 && k.off:
						why = "inactive until its lifetime ended"
					case len(k.evs) == 0:
						why = "never active"
					case !k.exp.IsZero():
						why = "inactive or expired"
					}
					return bad("invocation %d (of %d; the cache held %d tickets) offered ticket %s in pool %q, which was %s throughout", vi, len(invs), len(all), k.id, p, why)
				case !got[k.id] && !mayOff && in22(p, k.i):
					return bad("invocation %d (of %d) did not offer ticket %s in pool %q, which was active throughout", vi, len(invs), k.id, p)
				}
				if !mayOff && in22(p, k.i) {
					mustN++
				}
				if !mayOn {
					notN++
				}
			}
		}
	}
	res.Nontriv = len(invs) >= 2 && mustN > 0 && notN > 0 && writes.Load() > 20
	if changed > 0 {
		res.Labels = append(res.Labels, "changes-during-invocation")
	}
	if len(all) > 20000 {
		res.Labels = append(res.Labels, "tickets>20000")
	}
	if cs.Aged > 0 {
		res.Labels = append(res.Labels, "lifetimes-ending")
	}
	if expired > 0 {
		res.Labels = append(res.Labels, "expired")
	}
	if cs.Mem {
		res.Labels = append(res.Labels, "memory")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C22",
		Rule:     "A case is a cache of 20 to 70,000 tickets, of which some never were active, were deactivated, or reach the end of their lifetime during the case, 1-5 writers that create, activate, deactivate, repeat, match or let expire tickets (directly in the replication stream or through the API) for 0.3-2.4 s, and 1-3 callers that keep invoking a function with 1-4 pools meanwhile. For each invocation and ticket the states it may have had between the start of the call and the function's start are derived from measured times; a ticket that was inactive or expired all that time must not be offered, one that was active must be. Non-trivial: at least two invocations, tickets of both kinds, and more than 20 changes.",
		Quick:    160,
		Thorough: 3000,
		New:      func() any { return &Case22{} },
		Gen:      genCase22,
		Run:      run22,
		Assume:   []string{"An update is applied at the latest when a ticket created and activated after it is offered.", "A ticket has been removed once three such round trips have begun and ended later than 1.5 s after its expiration time (three update cycles)."},
	})
}
