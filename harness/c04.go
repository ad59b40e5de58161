package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C04: creation fidelity.

// RelTS is a timestamp that may be relative to the start of the case (or to another one).
type RelTS struct {
	Kind string // none, now, abs, cr (relative to the creation time), dl (relative to creation + lifetime)
	S    int64
	N    int32
}

type T4 struct {
	T   *TicketS
	Cr  RelTS
	Ex  RelTS
	Vis bool // filled in at run time
}

type Case4 struct {
	Bin    string
	Mem    bool
	Batch  int
	OutMS  int
	TTL    int
	Waves  [][]*T4 // created concurrently within a wave
	Twin   int     // additional identical tiny tickets created concurrently
	Gap    int     // ms between waves
	Delete bool
}

func (r RelTS) pb(now, cr time.Time, ttl int) *timestamppb.Timestamp {
	switch r.Kind {
	case "none":
		return nil
	case "abs":
		return &timestamppb.Timestamp{Seconds: r.S, Nanos: r.N}
	case "now":
		return timestamppb.New(now.Add(time.Duration(r.S)*time.Second + time.Duration(r.N)))
	case "cr":
		return timestamppb.New(cr.Add(time.Duration(r.S)*time.Second + time.Duration(r.N)))
	case "dl":
		return timestamppb.New(cr.Add(time.Duration(ttl)*time.Second + time.Duration(r.S)*time.Second + time.Duration(r.N)))
	}
	panic("kind")
}

var invalidTS = []TS{{0, -1}, {0, 1000000000}, {253402300800, 0}, {-62135596801, 0}, {1700000000, -5}, {1 << 60, 0}}

func init() {
	register(&Check{
		ID:       "C04",
		Rule:     "A case is a storage type, a ticket lifetime and 1-4 waves of up to 12 concurrently submitted tickets (plus bursts of identical ones) with generated attributes, extensions, client ids and creation/expiration times (absent, valid, invalid, around the limit). Ids must be unique and the ticket offered (or, if it is already expired, the stored one) must have exactly the submitted content and the specified times. Non-trivial: tickets with and without client times, and an expiration that had to be replaced, in one case.",
		Quick:    900,
		Thorough: 25000,
		New:      func() any { return &Case4{} },
		Gen: func(t *rapid.T) any {
			c := &Case4{Bin: pick(t, bins, "bin"), Mem: rapid.Bool().Draw(t, "mem")}
			c.Batch = rapid.SampledFrom([]int{50, 1, 2, 5}).Draw(t, "batch")
			c.OutMS = rapid.SampledFrom([]int{1, 3}).Draw(t, "out")
			c.TTL = rapid.SampledFrom([]int{600, 45, 3600, 100000}).Draw(t, "ttl")
			c.Gap = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "gap")
			if rapid.IntRange(0, 2).Draw(t, "tw") == 0 {
				c.Twin = rapid.IntRange(10, 150).Draw(t, "twin")
			}
			nw := rapid.IntRange(1, 4).Draw(t, "nw")
			for i := 0; i < nw; i++ {
				var w []*T4
				for j := 0; j < rapid.IntRange(1, 12).Draw(t, "n"); j++ {
					tk := genTicket(t, true)
					tk.Ext = genExt(t, 3)
					switch rapid.IntRange(0, 5).Draw(t, "id") {
					case 0:
						tk.ID = pick(t, []string{"1-1", "x", "1700000000000-0", "9999999999999-0"}, "cid")
					}
					if rapid.IntRange(0, 19).Draw(t, "pad") == 0 {
						tk.Pad = rapid.SampledFrom([]int{1000, 70000, 1 << 20}).Draw(t, "padn")
					}
					if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
						for k := 0; k < 200; k++ {
							tk.Tags = append(tk.Tags, fmt.Sprint("t", k%150))
						}
					}
					q := &T4{T: tk}
					nano := int32(rapid.SampledFrom([]int{0, 1, 500000000, 123456789}).Draw(t, "nano"))
					switch rapid.IntRange(0, 9).Draw(t, "crk") {
					case 0, 1, 2:
						q.Cr = RelTS{Kind: "none"}
					case 3, 4:
						v := invalidTS[rapid.IntRange(0, len(invalidTS)-1).Draw(t, "inv")]
						q.Cr = RelTS{"abs", v.S, v.N}
					case 5:
						q.Cr = RelTS{"abs", rapid.SampledFrom([]int64{0, 1, -1, 1000000000, 253402300799, -62135596800, 4102444800}).Draw(t, "abs"), nano}
					case 6, 7:
						q.Cr = RelTS{"now", int64(rapid.IntRange(-2*c.TTL, 2*c.TTL).Draw(t, "rel")), nano}
					default:
						q.Cr = RelTS{"now", int64(rapid.IntRange(-10, 10).Draw(t, "rel2")), nano}
					}
					switch rapid.IntRange(0, 9).Draw(t, "exk") {
					case 0, 1:
						q.Ex = RelTS{Kind: "none"}
					case 2:
						v := invalidTS[rapid.IntRange(0, len(invalidTS)-1).Draw(t, "inv")]
						q.Ex = RelTS{"abs", v.S, v.N}
					case 3:
						q.Ex = RelTS{"abs", rapid.SampledFrom([]int64{0, 1, 253402300799, -62135596800, 4102444800}).Draw(t, "abs"), nano}
					case 4, 5:
						q.Ex = RelTS{"dl", int64(rapid.IntRange(-2, 2).Draw(t, "dl")), int32(rapid.SampledFrom([]int{0, 1, -1, 500000000}).Draw(t, "dln"))}
					case 6:
						q.Ex = RelTS{"cr", int64(rapid.IntRange(-5, c.TTL).Draw(t, "cr")), nano}
					default:
						q.Ex = RelTS{"now", int64(rapid.IntRange(31, 2*c.TTL).Draw(t, "rel")), nano}
					}
					w = append(w, q)
				}
				c.Waves = append(c.Waves, w)
			}
			return c
		},
		Run: func(x *X, ci any) R {
			cs := ci.(*Case4)
			e := baseEnv()
			e["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = fmt.Sprint(cs.Batch)
			e["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = fmt.Sprint(cs.OutMS)
			e["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(cs.TTL)
			var rd *FakeRedis
			if !cs.Mem {
				r, l := x.NewRedis()
				rd = r
				redisEnv(e, l)
			}
			c, err := x.StartCore(e, cs.Bin)
			if err != nil {
				return R{Skip: "start: " + err.Error()}
			}
			c.Redis = rd
			type done struct {
				q        *T4
				sent     *pb.Ticket
				id       string
				err      error
				from, to time.Time
			}
			var all []*done
			for wi, wave := range cs.Waves {
				var ds []*done
				for _, q := range wave {
					d := &done{q: q}
					p := q.T.PB()
					now := time.Now()
					cr := q.Cr.pb(now, now, cs.TTL)
					base := now
					if cr.IsValid() && !q.T.NoAttr {
						base = cr.AsTime()
					}
					if p.Attributes != nil {
						p.Attributes.CreationTime = cr
					}
					p.ExpirationTime = q.Ex.pb(now, base, cs.TTL)
					d.sent = p
					ds = append(ds, d)
				}
				if wi == 0 {
					for i := 0; i < cs.Twin; i++ {
						ds = append(ds, &done{sent: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}})
					}
				}
				var wg sync.WaitGroup
				for _, d := range ds {
					wg.Add(1)
					go func() {
						defer wg.Done()
						ctx, cancel := rpcCtx(x)
						defer cancel()
						d.from = time.Now()
						r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: d.sent})
						d.to = time.Now()
						d.id, d.err = r.GetTicketId(), err
					}()
				}
				wg.Wait()
				all = append(all, ds...)
				time.Sleep(time.Duration(cs.Gap) * time.Millisecond)
			}
			ids := map[string]bool{}
			byLog := map[string]*pb.Ticket{}
			if rd != nil {
				for _, en := range rd.LogCopy() {
					if len(en.Fields) == 2 && en.Fields[0] == "ticket" {
						p := &pb.Ticket{}
						if proto.Unmarshal([]byte(en.Fields[1]), p) == nil {
							byLog[en.ID()] = p
						}
					}
				}
			}
			var idl []string
			for i, d := range all {
				if d.err != nil {
					if m, dd := c.CrashedSoon(d.err); dd {
						return bad("%s", m)
					}
					return live("creating ticket %d (%v) failed: %v", i, d.sent, d.err)
				}
				if d.id == "" {
					return bad("ticket %d was created without an id", i)
				}
				if ids[d.id] {
					return bad("two tickets got the id %s", d.id)
				}
				ids[d.id] = true
				idl = append(idl, d.id)
			}
			for len(idl) > 0 {
				n := min(len(idl), 500)
				ctx, cancel := rpcCtx(x)
				_, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: idl[:n]})
				cancel()
				if err != nil {
					if m, dd := c.CrashedSoon(err); dd {
						return bad("%s", m)
					}
					return live("activating failed: %v", err)
				}
				idl = idl[n:]
			}
			if err := c.Sync(); err != nil {
				return badErr("waiting for replication", err)
			}
			qStart := time.Now()
			got, err := c.Query(map[string]*pb.Pool{"all": {}})
			if err != nil {
				return badErr("query", err)
			}
			offered := map[string]*pb.Ticket{}
			for _, t := range got["all"] {
				if offered[t.GetId()] != nil {
					return bad("ticket %s is in the pool twice", t.GetId())
				}
				offered[t.GetId()] = t
				if !ids[t.GetId()] && !c.IsSync(t) {
					return bad("a ticket with the id %s, which no creation returned, is offered", t.GetId())
				}
			}
			res := R{}
			lab := map[string]bool{}
			checked := 0
			for i, d := range all {
				g := offered[d.id]
				src := "offered"
				if g == nil && rd != nil {
					g = byLog[d.id]
					src = "stored"
					if g != nil {
						g.Id = d.id
					} else {
						return bad("ticket %d was not stored under the id %s it was given", i, d.id)
					}
				}
				// expected times
				var cr time.Time
				crIn := d.sent.GetAttributes().GetCreationTime()
				exIn := d.sent.GetExpirationTime()
				if g == nil {
					// memory storage: must be expired already; work out whether that is right
					cr = d.from
					if crIn.IsValid() {
						cr = crIn.AsTime()
					}
					dl := cr.Add(time.Duration(cs.TTL) * time.Second)
					ex := dl
					if exIn.IsValid() && !exIn.AsTime().After(dl) {
						ex = exIn.AsTime()
					}
					if ex.After(qStart.Add(30 * time.Second)) {
						return bad("ticket %d (%s, %v) is not offered although it was activated and expires at %v", i, d.id, d.sent, ex)
					}
					lab["expired-at-once"] = true
					continue
				}
				checked++
				cr = g.GetAttributes().GetCreationTime().AsTime()
				if crIn.IsValid() {
					if !proto.Equal(crIn, g.GetAttributes().GetCreationTime()) {
						return bad("ticket %d: creation time %v was submitted but %v %s", i, crIn, g.GetAttributes().GetCreationTime(), src)
					}
					lab["client-creation-time"] = true
				} else {
					if g.GetAttributes().GetCreationTime() == nil || cr.Before(d.from.Add(-2*time.Millisecond)) || cr.After(d.to.Add(2*time.Millisecond)) {
						return bad("ticket %d: without a valid creation time %v was set, which is not the time of the request (%v - %v)", i, g.GetAttributes().GetCreationTime(), d.from, d.to)
					}
					lab["server-creation-time"] = true
				}
				dl := cr.Add(time.Duration(cs.TTL) * time.Second)
				ex := timestamppb.New(dl)
				if exIn.IsValid() && !exIn.AsTime().After(dl) {
					ex = exIn
					lab["client-expiration"] = true
				} else {
					lab["default-expiration"] = true
					if exIn.IsValid() {
						lab["capped-expiration"] = true
					}
				}
				if !proto.Equal(ex, g.GetExpirationTime()) {
					return bad("ticket %d (creation %v, requested expiration %v, lifetime %d s): expiration should be %v but is %v", i, cr, exIn, cs.TTL, ex, g.GetExpirationTime())
				}
				want := &pb.Ticket{Id: d.id, ExpirationTime: ex, Extensions: d.sent.GetExtensions(), Attributes: &pb.Ticket_FilterableData{
					Tags: d.sent.GetAttributes().GetTags(), StringArgs: d.sent.GetAttributes().GetStringArgs(),
					DoubleArgs: d.sent.GetAttributes().GetDoubleArgs(), CreationTime: g.GetAttributes().GetCreationTime()}}
				if detBytes(want) != detBytes(g) {
					return bad("ticket %d: submitted %v but %s %v", i, head(fmt.Sprint(want), 1500), src, head(fmt.Sprint(g), 1500))
				}
				if src == "stored" && ex.AsTime().After(qStart.Add(30*time.Second)) {
					return bad("ticket %d (%s) is not offered although it was activated and expires at %v", i, d.id, ex.AsTime())
				}
				if src == "offered" && ex.AsTime().Before(qStart.Add(-20*time.Second)) {
					return bad("ticket %d (%s) is offered although it expired at %v", i, d.id, ex.AsTime())
				}
			}
			res.Nontriv = checked > 1 && lab["client-creation-time"] && lab["server-creation-time"] && lab["default-expiration"]
			if cs.Mem {
				lab["memory"] = true
			}
			for k := range lab {
				res.Labels = append(res.Labels, k)
			}
			return res
		},
	})
}

var _ = strings.Contains
