package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C06: each state update is answered with its own outcome.

type Call6 struct {
	Op     string // create, act, deact, assign, match
	Refs   []Ref  `json:",omitempty"`
	Empty  bool   `json:",omitempty"` // assignment without content / ticket without anything but the marker
	Cancel int    `json:",omitempty"` // ms after which the caller gives up (0: never)
	Delay  int    `json:",omitempty"` // ms
	Bad    []int  `json:",omitempty"` // indices of updates storage refuses (fault kind "cmd")
}

type Wave6 struct {
	Fault string // "", cmd, trimerr, drop, after, partial, hang, down, closing, reset, garbage
	At    int    // which command of the wave is hit by drop, after, partial, hang
	Calls []*Call6
}

type Case6 struct {
	Bin   string
	Mem   bool
	Batch int
	OutMS int
	Pre   int
	Waves []*Wave6
}

type upd6 struct {
	kind, key string // key: ticket id, or marker of the new ticket
	val       string // assignment connection
}

func genCase6(t *rapid.T) any {
	c := &Case6{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 9).Draw(t, "mem") == 0}
	c.Batch = rapid.SampledFrom([]int{50, 1, 2, 3, 10, 50, 200}).Draw(t, "batch")
	c.OutMS = rapid.SampledFrom([]int{1, 2, 5, 10, 20}).Draw(t, "outms")
	c.Pre = rapid.IntRange(1, 8).Draw(t, "pre")
	for i := rapid.IntRange(1, 5).Draw(t, "waves"); i > 0; i-- {
		w := &Wave6{}
		k := rapid.IntRange(0, 20).Draw(t, "fault")
		if k > 17 {
			k = 6
		}
		switch {
		case c.Mem || k < 3:
		case k < 9:
			w.Fault = "cmd"
		default:
			w.Fault = []string{"trimerr", "drop", "after", "partial", "hang", "down", "closing", "reset", "garbage"}[k-9]
		}
		n := rapid.IntRange(1, 14).Draw(t, "calls")
		for j := 0; j < n; j++ {
			cl := &Call6{Op: rapid.SampledFrom([]string{"create", "create", "create", "act", "deact", "act", "assign", "match"}).Draw(t, "op")}
			ups := 1
			if cl.Op == "create" {
				cl.Empty = rapid.IntRange(0, 3).Draw(t, "empty") == 0
			} else {
				cl.Empty = cl.Op == "assign" && rapid.IntRange(0, 3).Draw(t, "empty") == 0
				ups = rapid.IntRange(1, 5).Draw(t, "nref")
				for q := 0; q < ups; q++ {
					if rapid.IntRange(0, 4).Draw(t, "rk") == 0 {
						cl.Refs = append(cl.Refs, Ref{K: "unk", I: rapid.IntRange(0, 5).Draw(t, "unk")})
					} else {
						cl.Refs = append(cl.Refs, Ref{K: "t", I: rapid.IntRange(0, c.Pre-1).Draw(t, "ri")})
					}
				}
				if (cl.Op == "act" || cl.Op == "deact") && rapid.IntRange(0, 29).Draw(t, "many") == 17 {
					for ups = rapid.SampledFrom([]int{65, 120, 260, 480}).Draw(t, "nmany"); len(cl.Refs) < ups; {
						cl.Refs = append(cl.Refs, Ref{K: "unk", I: 10 + len(cl.Refs)})
					}
				}
			}
			if rapid.IntRange(0, 11).Draw(t, "cancel") == 0 {
				cl.Cancel = rapid.IntRange(1, 8).Draw(t, "cms")
			}
			if rapid.IntRange(0, 2).Draw(t, "dl") == 0 {
				cl.Delay = rapid.IntRange(0, 6).Draw(t, "dms")
			}
			if w.Fault == "cmd" && rapid.IntRange(0, 2).Draw(t, "hit") == 0 {
				cl.Bad = []int{rapid.IntRange(0, ups-1).Draw(t, "badi")}
				if rapid.Bool().Draw(t, "two") && ups > 1 {
					cl.Bad = append(cl.Bad, rapid.IntRange(0, ups-1).Draw(t, "badj"))
				}
				if ups > 60 && rapid.IntRange(0, 2).Draw(t, "allbad") != 2 {
					cl.Bad = nil
					for q := 0; q < ups; q++ {
						cl.Bad = append(cl.Bad, q)
					}
				}
			}
			w.Calls = append(w.Calls, cl)
		}
		w.At = rapid.IntRange(0, 2*n+1).Draw(t, "at")
		c.Waves = append(c.Waves, w)
	}
	return c
}

// parseXadd extracts the update of an XADD command.
func parseXadd(args []string) (upd6, bool) {
	if len(args) < 5 {
		return upd6{}, false
	}
	return parseUpd(args[3:])
}

func parseUpd(f []string) (upd6, bool) {
	if len(f) < 2 {
		return upd6{}, false
	}
	u := upd6{kind: f[0], key: f[1]}
	switch f[0] {
	case "ticket":
		tk := &pb.Ticket{}
		if proto.Unmarshal([]byte(f[1]), tk) != nil {
			return u, false
		}
		u.key = tk.GetAttributes().GetStringArgs()["marker"]
	case "assign":
		if len(f) != 4 {
			return u, false
		}
		a := &pb.Assignment{}
		if proto.Unmarshal([]byte(f[3]), a) != nil {
			return u, false
		}
		u.val = a.GetConnection()
	}
	return u, true
}

type res6 struct {
	err  error
	id   string
	errs []string // violations' fields
	text string   // everything the error says
	ms   []*pb.Match
}

func run6(x *X, ci any) R {
	cs := ci.(*Case6)
	env := baseEnv()
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Batch)
	env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.OutMS)
	for _, wv := range cs.Waves {
		if wv.Fault == "hang" {
			env["OM_REDIS_POOL_IDLE_TIMEOUT"] = "2s"
		}
	}
	var rd *FakeRedis
	var wl *listener
	if !cs.Mem {
		rd = NewFakeRedis()
		var err error
		wl, err = rd.Listen("127.0.0.1:0", RoleWrite)
		if err != nil {
			panic(harnessErr{err})
		}
		rl, err := rd.Listen("127.0.0.1:0", RoleRead)
		if err != nil {
			panic(harnessErr{err})
		}
		x.Defer(rd.Close)
		redisEnv(env, wl)
		e2 := map[string]string{}
		redisEnv(e2, rl)
		env["OM_REDIS_READ_HOST"], env["OM_REDIS_READ_PORT"] = e2["OM_REDIS_READ_HOST"], e2["OM_REDIS_READ_PORT"]
	}
	c, err := x.StartCore(env, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	w := &World{x: x, c: c}
	w.startMmf()
	for i := 0; i < cs.Pre; i++ {
		id, r := w.create(&TicketS{Str: map[string]string{"marker": fmt.Sprintf("pre-%d", i)}})
		if r != nil {
			return *r
		}
		w.ts = append(w.ts, &wt{id: id})
	}
	t0 := time.Now().UnixMilli()
	resolve := func(r Ref) string {
		if r.K == "unk" {
			return fmt.Sprintf("%d-%d", t0, 100000+r.I)
		}
		return w.id(r)
	}
	lab := map[string]bool{}
	created := map[string]string{} // id -> marker
	known := map[upd6]bool{}       // every update that was ever requested
	for i := 0; i < cs.Pre; i++ {
		known[upd6{kind: "ticket", key: fmt.Sprintf("pre-%d", i)}] = true
	}
	faults, mixed := 0, 0
	for wi, wv := range cs.Waves {
		logFrom := 0
		if rd != nil {
			logFrom = rd.LogLen()
		}
		// the updates of every call, and which of them storage will refuse
		ups := make([][]upd6, len(wv.Calls))
		refuse := map[upd6]bool{}
		for i, cl := range wv.Calls {
			switch cl.Op {
			case "create":
				ups[i] = []upd6{{kind: "ticket", key: fmt.Sprintf("w%d-%d", wi, i)}}
			default:
				for _, r := range cl.Refs {
					u := upd6{kind: map[string]string{"act": "activate", "deact": "deactivate", "match": "deactivate", "assign": "assign"}[cl.Op], key: resolve(r)}
					if cl.Op == "assign" && !cl.Empty {
						u.val = fmt.Sprintf("conn-%d-%d", wi, i)
					}
					ups[i] = append(ups[i], u)
				}
			}
			for _, b := range cl.Bad {
				refuse[ups[i][b]] = true
			}
			for _, u := range ups[i] {
				known[u] = true
			}
		}
		var cm sync.Mutex
		n, hits := 0, 0
		switch wv.Fault {
		case "cmd":
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "XADD" {
					if u, ok := parseXadd(k.Args); ok && refuse[u] {
						cm.Lock()
						hits++
						cm.Unlock()
						return Action{Kind: ActErr, Msg: "OOM command not allowed when used memory > 'maxmemory'."}
					}
				}
				return Action{}
			})
		case "trimerr":
			rd.SetHook(func(k *Cmd) Action {
				if k.Name == "XTRIM" {
					return Action{Kind: ActErr, Msg: "ERR trim refused"}
				}
				return Action{}
			})
		case "drop", "after", "partial", "hang", "reset", "garbage":
			kind := map[string]ActKind{"drop": ActDropBefore, "after": ActDropAfter, "partial": ActPartial, "hang": ActHang, "reset": ActReset, "garbage": ActGarbage}[wv.Fault]
			rd.SetHook(func(k *Cmd) Action {
				if k.Role != RoleWrite {
					return Action{}
				}
				cm.Lock()
				defer cm.Unlock()
				n++
				if n-1 == wv.At {
					hits++
					return Action{Kind: kind}
				}
				return Action{}
			})
		case "down", "closing":
			rd.Down(wl, wv.Fault)
			hits = 1
		}
		res := make([]*res6, len(wv.Calls))
		var wg sync.WaitGroup
		for i, cl := range wv.Calls {
			if cl.Op == "match" {
				w.mu.Lock()
				p := &matchPlan{}
				for _, u := range ups[i] {
					p.ids = append(p.ids, u.key)
				}
				w.plans[fmt.Sprintf("m%d-%d", wi, i)] = p
				w.mu.Unlock()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if cl.Delay > 0 {
					time.Sleep(time.Duration(cl.Delay) * time.Millisecond)
				}
				ctx, cancel := rpcCtx(x)
				defer cancel()
				if cl.Cancel > 0 {
					var c2 context.CancelFunc
					ctx, c2 = context.WithCancel(ctx)
					tm := time.AfterFunc(time.Duration(cl.Cancel)*time.Millisecond, c2)
					defer tm.Stop()
					defer c2()
				}
				r := &res6{}
				res[i] = r
				var ids []string
				for _, u := range ups[i] {
					ids = append(ids, u.key)
				}
				switch cl.Op {
				case "create":
					tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"marker": ups[i][0].key}}}
					if !cl.Empty {
						tk.Attributes.Tags = []string{"x", "y"}
					}
					var o *pb.CreateTicketResponse
					o, r.err = c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: tk})
					r.id = o.GetTicketId()
				case "act":
					_, r.err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
				case "deact":
					_, r.err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
				case "assign":
					ro := &pb.Roster{Assignment: &pb.Assignment{}}
					if !cl.Empty {
						ro.Assignment.Connection = ups[i][0].val
					}
					for _, id := range ids {
						ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
					}
					_, r.err = c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
				case "match":
					name := fmt.Sprintf("m%d-%d", wi, i)
					r.ms, r.err = c.Invoke(ctx, &pb.Profile{Name: name}, w.mmf.Spec(name))
				}
				if r.err != nil {
					st := status.Convert(r.err)
					r.text = st.Message()
					for _, d := range st.Details() {
						if b, ok := d.(*errdetails.BadRequest); ok {
							for _, v := range b.GetFieldViolations() {
								r.errs = append(r.errs, v.GetField())
								r.text += " " + v.GetField() + " " + v.GetDescription()
							}
						} else {
							r.text += fmt.Sprint(" ", d)
						}
					}
				}
			}()
		}
		wg.Wait()
		if rd != nil {
			rd.SetHook(nil)
			rd.ReleaseHang()
			if wv.Fault == "down" || wv.Fault == "closing" {
				if err := rd.Up(wl); err != nil {
					return R{Skip: err.Error()}
				}
			}
		}
		cm.Lock()
		hit := hits > 0
		cm.Unlock()
		if hit {
			faults++
			lab[wv.Fault] = true
		}
		// what is in storage now
		stored := map[upd6]int{}
		byID := map[string]upd6{}
		if rd != nil {
			for _, e := range rd.LogCopy()[logFrom:] {
				if e.Conn == 0 {
					continue
				}
				u, ok := parseUpd(e.Fields)
				if !ok {
					return bad("wave %d: storage received an update that cannot be read: %q", wi, e.Fields)
				}
				if !known[u] {
					return bad("wave %d: storage received an update nobody requested: %v", wi, u)
				}
				stored[u]++
				byID[e.ID()] = u
			}
		}
		connFault := hit && wv.Fault != "cmd" && wv.Fault != "trimerr"
		okN, badN := 0, 0
		for i, cl := range wv.Calls {
			r := res[i]
			what := fmt.Sprintf("wave %d (%s), call %d (%s)", wi, wv.Fault, i, cl.Op)
			if cl.Cancel > 0 {
				lab["cancelled"] = true
				continue
			}
			if m, d := c.CrashedSoon(r.err); d {
				return bad("%s: %s", what, m)
			}
			if code := status.Code(r.err); code == codes.DeadlineExceeded {
				return live("%s: no answer: %v", what, r.err)
			}
			refused := map[string]bool{}
			if wv.Fault == "cmd" {
				for _, u := range ups[i] {
					if refuse[u] {
						refused[u.key] = true
					}
				}
			}
			if cl.Op == "match" {
				if r.err != nil {
					return bad("%s: the invocation failed: %v", what, r.err)
				}
				if len(r.ms) != 1 {
					return bad("%s: %d matches instead of 1", what, len(r.ms))
				}
				if rd != nil && !connFault {
					for _, u := range ups[i] {
						if !refuse[u] && stored[u] == 0 {
							return bad("%s: the deactivation of %s was not stored", what, u.key)
						}
					}
				}
				continue
			}
			if r.err == nil {
				okN++
				if len(refused) > 0 {
					return bad("%s: succeeded although storage refused %v", what, sortedKeys(refused))
				}
				if rd == nil {
					if cl.Op == "create" {
						if created[r.id] != "" || r.id == "" {
							return bad("%s: returned the id %q, already returned for %s", what, r.id, created[r.id])
						}
						created[r.id] = ups[i][0].key
					}
					continue
				}
				for _, u := range ups[i] {
					if stored[u] == 0 {
						return bad("%s: succeeded, but its update %v is not in storage", what, u)
					}
				}
				if cl.Op == "create" {
					if byID[r.id] != ups[i][0] {
						return bad("%s: returned id %q, under which %v is stored instead of its ticket %s", what, r.id, byID[r.id], ups[i][0].key)
					}
					if created[r.id] != "" {
						return bad("%s: returned the id %q a second time", what, r.id)
					}
					created[r.id] = ups[i][0].key
				}
				continue
			}
			badN++
			if cl.Op == "assign" && cl.Empty && rd != nil {
				lab["incomplete-refused"] = true
				continue // storage may refuse an assignment without content
			}
			// errors
			if wv.Fault == "cmd" || !connFault {
				if len(refused) == 0 {
					return bad("%s: failed although storage accepted all its updates: %v %s", what, r.err, head(r.text, 300))
				}
				for _, u := range ups[i] {
					if !refused[u.key] && stored[u] == 0 {
						return bad("%s: its update %v is not in storage, although only others were refused", what, u)
					}
				}
				if cl.Op == "act" || cl.Op == "deact" {
					for id := range refused {
						if !strings.Contains(r.text, id) {
							return bad("%s: the error does not name the failed ticket id %s: %s", what, id, head(r.text, 400))
						}
					}
					for _, u := range ups[i] {
						for _, f := range r.errs {
							if !refused[u.key] && strings.HasSuffix(f, "/"+u.key) {
								return bad("%s: the error names ticket id %s, whose update was stored", what, u.key)
							}
						}
					}
				}
				continue
			}
			if cl.Op == "act" || cl.Op == "deact" {
				for _, u := range ups[i] {
					if stored[u] == 0 && !strings.Contains(r.text, u.key) {
						return bad("%s: the error does not name ticket id %s, which was not stored: %s", what, u.key, head(r.text, 400))
					}
				}
			}
		}
		if okN > 0 && badN > 0 {
			mixed++
			lab["mixed-wave"] = true
		}
		if connFault || len(wv.Calls) > 0 && cancelled(wv.Calls) {
			// get over stale connections and late updates of cancelled calls
			ok := false
			for k := 0; k < 50 && !ok; k++ {
				ctx, cancel := rpcCtx(x)
				m := fmt.Sprintf("flush-%d-%d", wi, k)
				known[upd6{kind: "ticket", key: m}] = true
				_, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"marker": m}}}})
				cancel()
				if mm, d := c.CrashedSoon(err); d {
					return bad("after wave %d: %s", wi, mm)
				}
				ok = err == nil
				if !ok {
					time.Sleep(10 * time.Millisecond)
				}
			}
			if !ok {
				return live("after wave %d (%s): creations keep failing although the fault is over", wi, wv.Fault)
			}
		}
	}
	// the tickets are what their creators were told
	if cs.Mem && len(created) > 0 {
		ids := sortedKeys(created)
		ctx, cancel := rpcCtx(x)
		_, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		cancel()
		if err != nil {
			return badErr("activating the created tickets", err)
		}
		if err := c.Sync(); err != nil {
			return badErr("sync", err)
		}
		got, err := c.Query(map[string]*pb.Pool{"all": {}})
		if err != nil {
			return badErr("query", err)
		}
		seen := map[string]string{}
		for _, t := range got["all"] {
			seen[t.GetId()] = t.GetAttributes().GetStringArgs()["marker"]
		}
		for id, m := range created {
			if seen[id] != m {
				return bad("the id %s was returned for ticket %s but belongs to %q", id, m, seen[id])
			}
		}
	}
	r := R{Nontriv: faults > 0 && mixed > 0 || cs.Mem && len(created) > 3}
	for k := range lab {
		r.Labels = append(r.Labels, k)
	}
	return r
}

func cancelled(cs []*Call6) bool {
	for _, c := range cs {
		if c.Cancel > 0 {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID:       "C06",
		Rule:     "A case is 1-5 waves of 1-14 concurrent calls (creations, activations, deactivations, assignments with or without content, matches; some callers give up early) under a batch size and wait, each wave with a fault at the storage: individual updates refused, the trim refused, the connection dropped before, during or after the n-th command, a hanging command, an outage. Non-trivial: a fault hit and in the same wave some call succeeded and another failed (memory storage: at least 4 creations).",
		Quick:    1200,
		Thorough: 30000,
		New:      func() any { return &Case6{} },
		Gen:      genCase6,
		Run:      run6,
		Assume:   []string{"Of a batch whose connection breaks, calls may be told of failure although their update was stored; never the other way round."},
	})
}
