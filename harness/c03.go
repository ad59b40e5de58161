package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C03: the pools follow the activate/deactivate history.

type Ref struct {
	K string // t: ticket I, unk: well-formed unknown id, bad: malformed id S, der: malformed, derived from ticket I
	I int
	S string `json:",omitempty"`
}

type Op struct {
	Op   string   // create, bulk, act, deact, match, xact, xdeact, sync, query, par
	T    *TicketS `json:",omitempty"`
	N    int      `json:",omitempty"`
	Refs []Ref    `json:",omitempty"`
	Par  []*Op    `json:",omitempty"`
	Fail bool     `json:",omitempty"` // the match function fails after its match
}

type CaseHist struct {
	Bin    string
	Mem    bool
	Batch  int // OM_CACHE_OUT_MAX_QUEUE_THRESHOLD
	OutMS  int
	InMS   int
	InMax  int
	Ops    []*Op
	FinalQ bool
}

var badIDs = []string{"", "abc", "-", "1-", "-1", "1-1-1", " 1-1", "1-1 ", "1-1\n", "١-١", "1.5-0", "0x1-1", "1–1", "+1-1", "a1-1b", "--", "1--1", "1 -1", "ticket-1", "null", "１-１", "1-1", "0-0", "99999999999999999999-1"}
var derIDs = []string{" %s", "%s ", "%s-0", "x%s", "%sx", "%s,", "%s\n", "\n%s", "-%s", "%s%%"}

type wt struct {
	id     string
	spec   *TicketS
	active bool
}

// World executes operations against one server and mirrors them in the model.
type World struct {
	x     *X
	c     *Core
	mu    sync.Mutex
	ts    []*wt
	mmf   *Mmf
	plans map[string]*matchPlan
	mn    int
}

type matchPlan struct {
	ids  []string
	fail bool
}

func (w *World) id(r Ref) string {
	switch r.K {
	case "t":
		return w.ts[r.I].id
	case "unk":
		return fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 100000+r.I)
	case "der":
		return fmt.Sprintf(r.S, w.ts[r.I].id)
	}
	return r.S
}

func (w *World) ids(rs []Ref) []string {
	out := []string{}
	for _, r := range rs {
		out = append(out, w.id(r))
	}
	return out
}

func (w *World) set(rs []Ref, v bool) {
	for _, r := range rs {
		if r.K == "t" {
			w.ts[r.I].active = v
		}
	}
}

func (w *World) callErr(what string, err error) *R {
	if m, d := w.c.CrashedSoon(err); d {
		r := bad("%s: %s", what, m)
		return &r
	}
	r := bad("%s failed: %v", what, err)
	if c := status.Code(err); c == codes.DeadlineExceeded || c == codes.Unavailable {
		r.Live = true
	}
	return &r
}

func (w *World) create(t *TicketS) (string, *R) {
	ctx, cancel := rpcCtx(w.x)
	defer cancel()
	r, err := w.c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t.PB()})
	if err != nil {
		return "", w.callErr("CreateTicket", err)
	}
	if r.GetTicketId() == "" {
		b := bad("CreateTicket succeeded without an id")
		return "", &b
	}
	return r.GetTicketId(), nil
}

// alloc reserves the model tickets of an operation, before it (or its concurrent siblings) run.
func (w *World) alloc(o *Op) {
	switch o.Op {
	case "create":
		w.ts = append(w.ts, &wt{spec: o.T})
	case "bulk":
		for i := 0; i < o.N; i++ {
			w.ts = append(w.ts, &wt{spec: o.T})
		}
	case "par":
		for _, s := range o.Par {
			w.alloc(s)
		}
	}
}

// do executes an operation. base is the index of the first ticket the operation creates.
func (w *World) do(o *Op, base int) *R {
	ctx, cancel := rpcCtx(w.x)
	defer cancel()
	switch o.Op {
	case "create":
		id, r := w.create(o.T)
		if r != nil {
			return r
		}
		w.ts[base].id = id
	case "bulk":
		if w.c.Redis != nil {
			tk := o.T.PB()
			tk.ExpirationTime = tsAt(time.Now().Add(time.Hour))
			tk.Attributes.CreationTime = tsNow()
			b := string(mustMarshal(tk))
			for i := 0; i < o.N; i++ {
				w.ts[base+i].id = w.c.Redis.Add("ticket", b)
			}
			return nil
		}
		var wg sync.WaitGroup
		res := make([]*R, o.N)
		for i := 0; i < o.N; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.ts[base+i].id, res[i] = w.create(o.T)
			}()
		}
		wg.Wait()
		for _, r := range res {
			if r != nil {
				return r
			}
		}
	case "act", "deact":
		ids := w.ids(o.Refs)
		if len(ids) == 0 {
			return nil
		}
		var err error
		if o.Op == "act" {
			_, err = w.c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		} else {
			_, err = w.c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
		}
		if err != nil {
			onlyGood := true
			for _, r := range o.Refs {
				if r.K != "t" && r.K != "unk" {
					onlyGood = false
				}
			}
			// a request with malformed ids may be answered with an error about those
			if onlyGood || status.Code(err) != codes.InvalidArgument {
				return w.callErr(o.Op, err)
			}
		}
		w.set(o.Refs, o.Op == "act")
	case "xact", "xdeact":
		// written by another instance
		if w.c.Redis == nil {
			return nil
		}
		for _, id := range w.ids(o.Refs) {
			if o.Op == "xact" {
				w.c.Redis.Add("activate", id)
			} else {
				w.c.Redis.Add("deactivate", id)
			}
		}
		w.set(o.Refs, o.Op == "xact")
	case "match":
		name := fmt.Sprintf("m%d", w.nextMatch())
		w.mu.Lock()
		w.plans[name] = &matchPlan{ids: w.ids(o.Refs), fail: o.Fail}
		w.mu.Unlock()
		ms, err := w.c.Invoke(ctx, &pb.Profile{Name: name, Pools: map[string]*pb.Pool{}}, w.mmf.Spec(name))
		if err != nil && !o.Fail {
			return w.callErr("InvokeMatchmakingFunctions", err)
		}
		_ = ms
		if m, d := w.c.CrashedSoon(err); d {
			r := bad("match: %s", m)
			return &r
		}
		w.set(o.Refs, false)
	case "par":
		b := base
		var wg sync.WaitGroup
		res := make([]*R, len(o.Par))
		for i, s := range o.Par {
			bb := b
			switch s.Op {
			case "create":
				b++
			case "bulk":
				b += s.N
			}
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = w.do(s, bb) }()
		}
		wg.Wait()
		for _, r := range res {
			if r != nil {
				return r
			}
		}
	}
	return nil
}

func (w *World) nextMatch() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.mn++
	return w.mn
}

// startMmf gives the world a match function that plays the plan of its profile's name.
func (w *World) startMmf() {
	w.plans = map[string]*matchPlan{}
	w.mmf = w.x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		ch, err := readChunks(s)
		if err != nil || len(ch) == 0 {
			return err
		}
		w.mu.Lock()
		p := w.plans[ch[0].GetProfile().GetName()]
		w.mu.Unlock()
		if p == nil {
			return nil
		}
		// spread over two rosters
		m := &pb.Match{Id: ch[0].GetProfile().GetName(), Rosters: map[string]*pb.Roster{"a": {Name: "a"}, "b": {Name: "b"}}}
		for i, id := range p.ids {
			k := "a"
			if i%2 == 1 {
				k = "b"
			}
			m.Rosters[k].Tickets = append(m.Rosters[k].Tickets, &pb.Ticket{Id: id})
		}
		if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return err
		}
		if p.fail {
			return status.Error(codes.Internal, "planned failure")
		}
		return nil
	})
}

var histTags = []string{"a", "b", "c"}

func histPools() map[string]*pb.Pool {
	out := map[string]*pb.Pool{"all": {}}
	for _, t := range histTags {
		out[t] = &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: t}}}
	}
	return out
}

// compare checks the pools of an instance against the model.
func (w *World) compare(c *Core, when string) *R {
	got, err := c.Query(histPools())
	if err != nil {
		r := badErr("query "+when, err)
		return &r
	}
	for name, p := range histPools() {
		want := []string{}
		for _, t := range w.ts {
			if !t.active || t.id == "" {
				continue
			}
			in := len(p.TagPresentFilters) == 0
			for _, x := range t.spec.Tags {
				in = in || x == name
			}
			if in {
				want = append(want, t.id)
			}
		}
		sort.Strings(want)
		if g := c.ids(got[name]); !eqStrs(g, want) {
			r := bad("%s: pool %q: %s", when, name, diffStrs(g, want))
			return &r
		}
	}
	return nil
}

func genHistTicket(t *rapid.T) *TicketS {
	tk := &TicketS{}
	for _, x := range histTags {
		if rapid.Bool().Draw(t, "tag") {
			tk.Tags = append(tk.Tags, x)
		}
	}
	return tk
}

func genRefs(t *rapid.T, n, max int, junk bool) []Ref {
	k := rapid.IntRange(1, max).Draw(t, "nref")
	var out []Ref
	for i := 0; i < k; i++ {
		q := rapid.IntRange(0, 19).Draw(t, "rk")
		switch {
		case junk && q >= 18:
			out = append(out, Ref{K: "bad", S: pick(t, badIDs, "bad")})
		case junk && q == 17:
			out = append(out, Ref{K: "unk", I: rapid.IntRange(0, 9).Draw(t, "unk")})
		case junk && q == 16 && n > 0:
			out = append(out, Ref{K: "der", I: rapid.IntRange(0, n-1).Draw(t, "ri"), S: pick(t, derIDs, "der")})
		case n > 0:
			out = append(out, Ref{K: "t", I: rapid.IntRange(0, n-1).Draw(t, "ri")})
		}
	}
	return out
}

// genOps generates a history; n is the number of existing tickets.
func genOps(t *rapid.T, n int, cnt int, mem bool) []*Op {
	var out []*Op
	for i := 0; i < cnt; i++ {
		k := rapid.IntRange(0, 19).Draw(t, "op")
		switch {
		case n == 0 || k < 3:
			out = append(out, &Op{Op: "create", T: genHistTicket(t)})
			n++
		case k < 8:
			out = append(out, &Op{Op: "act", Refs: genRefs(t, n, 6, true)})
		case k < 12:
			out = append(out, &Op{Op: "deact", Refs: genRefs(t, n, 4, true)})
		case k == 12:
			out = append(out, &Op{Op: "match", Refs: genRefs(t, n, 4, false), Fail: rapid.IntRange(0, 3).Draw(t, "mf") == 0})
		case k == 13 && !mem:
			out = append(out, &Op{Op: pick(t, []string{"xact", "xdeact"}, "xop"), Refs: genRefs(t, n, 3, false)})
		case k == 14 || k == 15:
			out = append(out, &Op{Op: "query"})
		case k == 16:
			// a large call: more ids than a batch holds
			m := rapid.SampledFrom([]int{20, 49, 50, 51, 120, 300}).Draw(t, "bulk")
			out = append(out, &Op{Op: "bulk", N: m, T: genHistTicket(t)})
			refs := []Ref{}
			from := rapid.IntRange(0, m/2).Draw(t, "from")
			for j := from; j < m; j++ {
				refs = append(refs, Ref{K: "t", I: n + j})
			}
			out = append(out, &Op{Op: "act", Refs: refs})
			if rapid.Bool().Draw(t, "bd") {
				out = append(out, &Op{Op: pick(t, []string{"deact", "match"}, "bop"), Refs: refs[len(refs)/2:]})
			}
			n += m
		case k == 17 || k == 18:
			// concurrent calls on disjoint tickets
			o := &Op{Op: "par"}
			old := n
			for j := 0; j < rapid.IntRange(2, 6).Draw(t, "np"); j++ {
				if rapid.IntRange(0, 2).Draw(t, "pk") == 0 {
					o.Par = append(o.Par, &Op{Op: "create", T: genHistTicket(t)})
					n++
				}
			}
			perm := rapid.Permutation(seq(old)).Draw(t, "perm")
			for len(perm) > 0 && len(o.Par) < 12 {
				m := rapid.IntRange(1, 4).Draw(t, "pm")
				if m > len(perm) {
					m = len(perm)
				}
				refs := []Ref{}
				for _, i := range perm[:m] {
					refs = append(refs, Ref{K: "t", I: i})
				}
				perm = perm[m:]
				o.Par = append(o.Par, &Op{Op: pick(t, []string{"act", "deact", "act", "match"}, "po"), Refs: refs})
			}
			out = append(out, o)
		case k == 19:
			// rapid alternation of one ticket
			i := rapid.IntRange(0, n-1).Draw(t, "alt")
			for j := 0; j < rapid.IntRange(2, 5).Draw(t, "altn"); j++ {
				out = append(out, &Op{Op: []string{"act", "deact"}[j%2], Refs: []Ref{{K: "t", I: i}}})
			}
		}
	}
	return out
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	if n > 20 {
		out = out[n-20:]
	}
	return out
}

func (cs *CaseHist) env() map[string]string {
	e := baseEnv()
	e["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Batch)
	e["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.OutMS)
	e["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.InMS)
	e["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(cs.InMax)
	return e
}

func genHistCfg(t *rapid.T, c *CaseHist) {
	c.Bin = pick(t, bins, "bin")
	c.Mem = rapid.IntRange(0, 2).Draw(t, "mem") == 0
	c.Batch = rapid.SampledFrom([]int{50, 1, 2, 3, 10}).Draw(t, "batch")
	c.OutMS = rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "outms")
	c.InMS = rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "inms")
	c.InMax = rapid.SampledFrom([]int{10000, 1, 2, 7, 100}).Draw(t, "inmax")
}

var _ = context.Background

func init() {
	register(&Check{
		ID:       "C03",
		Rule:     "A case is a configuration (storage, batch and poll sizes) and a history of up to 40 operations: creations, (de)activations of 1-300 ids including duplicate, unknown and malformed ids, matches returned by match functions (which may then fail), updates by another instance, concurrent calls on disjoint tickets; at every query point and at the end the pools are compared with the model. Non-trivial: at the end some ticket was re-activated after a deactivation, or a ticket is active and another inactive, after at least 5 operations.",
		Quick:    900,
		Thorough: 25000,
		New:      func() any { return &CaseHist{} },
		Gen: func(t *rapid.T) any {
			c := &CaseHist{}
			genHistCfg(t, c)
			c.Ops = genOps(t, 0, rapid.IntRange(2, 30).Draw(t, "nops"), c.Mem)
			return c
		},
		Run: func(x *X, ci any) R {
			cs := ci.(*CaseHist)
			e := cs.env()
			var rd *FakeRedis
			if !cs.Mem {
				r, l := x.NewRedis()
				rd = r
				redisEnv(e, l)
			}
			c, err := x.StartCore(e, cs.Bin)
			if err != nil {
				return R{Skip: "start: " + err.Error()}
			}
			c.Redis = rd
			w := &World{x: x, c: c}
			w.startMmf()
			res := R{}
			lab := map[string]bool{}
			last := map[int]bool{}
			for i, o := range cs.Ops {
				lab[o.Op] = true
				if o.Op == "query" {
					if err := c.Sync(); err != nil {
						return badErr(fmt.Sprintf("waiting for replication before operation %d", i), err)
					}
					if r := w.compare(c, fmt.Sprintf("after operation %d", i)); r != nil {
						return *r
					}
					continue
				}
				base := len(w.ts)
				w.alloc(o)
				if r := w.do(o, base); r != nil {
					r.Bad = fmt.Sprintf("operation %d: %s", i, r.Bad)
					return *r
				}
				for k, t := range w.ts {
					if t.active && last[k] {
						lab["re-activated"] = true
					}
				}
				if o.Op == "deact" || o.Op == "match" || o.Op == "xdeact" {
					for _, r := range o.Refs {
						if r.K == "t" {
							last[r.I] = true
						}
					}
				}
			}
			if err := c.Sync(); err != nil {
				return badErr("waiting for replication at the end", err)
			}
			if r := w.compare(c, "at the end"); r != nil {
				return *r
			}
			on, off := 0, 0
			for _, t := range w.ts {
				if t.active {
					on++
				} else {
					off++
				}
			}
			res.Nontriv = len(cs.Ops) >= 5 && (lab["re-activated"] || on > 0 && off > 0)
			if cs.Mem {
				lab["memory"] = true
			}
			for k := range lab {
				res.Labels = append(res.Labels, k)
			}
			return res
		},
	})
}
