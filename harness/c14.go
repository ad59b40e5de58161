package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C14: invalid requests are refused as a whole, limits are enforced.

type Req14 struct {
	Op   string // create, act, deact, assign, invoke
	Lack string // what is missing
	D    int    // number of updates relative to the limit (assign, act, deact), if Exact
	N    int    // else: number of updates
	Ex   bool
	Bad  []TRef // malformed ids (and their places) among them
	At   []int
	Dup  bool
	Asg  int  // kind of assignment
	None bool `json:",omitempty"` // assign: a roster without tickets
}

type Case14 struct {
	Bin   string
	Mem   bool
	Limit int // 0: default
	N     int
	Grps  [][]*Req14 // requests of a group run concurrently
}

var strictID = regexp.MustCompile(`^[0-9]+-[0-9]+$`)

// idClass: 1 well-formed, 0 malformed, 2 either (its numbers do not fit, or it is never assigned)
func idClass(id string) int {
	if !strictID.MatchString(id) {
		return 0
	}
	p := strings.Split(id, "-")
	if len(p[0]) > 13 || len(p[1]) > 15 || len(p[0]) < 13 {
		return 2
	}
	return 1
}

func genReq14(t *rapid.T, c *Case14, lim int) *Req14 {
	q := &Req14{}
	switch k := rapid.IntRange(0, 15).Draw(t, "rk"); {
	case k == 0:
		q.Op, q.Lack = "create", "ticket"
		return q
	case k == 1:
		q.Op, q.Lack = "invoke", pick(t, []string{"profile", "mmfs", "both"}, "lacki")
		return q
	case k == 2:
		q.Op, q.Lack = "assign", pick(t, []string{"assignment", "roster"}, "lacka")
		q.None = rapid.Bool().Draw(t, "none")
	case k == 3:
		q.Op, q.Lack = pick(t, []string{"act", "deact"}, "op"), "ids"
		return q
	case k == 4:
		q.Op = "create"
		return q
	case k < 9:
		q.Op = "act"
	case k < 12:
		q.Op = "deact"
	default:
		q.Op = "assign"
	}
	switch rapid.IntRange(0, 5).Draw(t, "nk") {
	case 0, 1:
		q.Ex, q.D = true, rapid.SampledFrom([]int{0, 1, -1}).Draw(t, "d")
	case 2:
		q.Ex, q.D = true, rapid.SampledFrom([]int{2, 10, 500, 1}).Draw(t, "d")
	default:
		q.N = rapid.IntRange(1, max(1, min(lim, 12))).Draw(t, "n")
	}
	if rapid.Bool().Draw(t, "hasbad") {
		for i := rapid.IntRange(1, 4).Draw(t, "nbad"); i > 0; i-- {
			s := ""
			if rapid.Bool().Draw(t, "der") {
				s = pick(t, derIDs, "deri")
			} else {
				s = pick(t, badIDs, "badi")
			}
			q.Bad = append(q.Bad, TRef{I: -1, S: s})
			q.At = append(q.At, rapid.IntRange(0, 10).Draw(t, "at"))
		}
	}
	if c.Mem && (q.Ex && q.D > 0 || len(q.Bad) > lim) {
		q.Bad, q.At = nil, nil
	}
	q.Dup = rapid.IntRange(0, 5).Draw(t, "dup") == 5
	q.Asg = rapid.IntRange(0, 2).Draw(t, "asg")
	return q
}

func genCase14(t *rapid.T) any {
	c := &Case14{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 4).Draw(t, "mem") == 4}
	c.Limit = rapid.SampledFrom([]int{5, 1, 2, 0, 100, 3000}).Draw(t, "limit")
	c.N = rapid.IntRange(1, 10).Draw(t, "tn")
	lim := c.Limit
	if lim == 0 {
		lim = 500
	}
	for g := rapid.IntRange(2, 12).Draw(t, "ng"); g > 0; g-- {
		var grp []*Req14
		k := 1
		if !c.Mem && rapid.IntRange(0, 3).Draw(t, "par") == 3 {
			k = rapid.IntRange(2, 4).Draw(t, "npar")
		}
		for ; k > 0; k-- {
			grp = append(grp, genReq14(t, c, lim))
		}
		c.Grps = append(c.Grps, grp)
	}
	return c
}

func (q *Req14) ids(real []string, lim, salt int) []string {
	n := q.N
	if q.Ex {
		n = max(1, lim+q.D)
	}
	n = max(n, len(q.Bad))
	out := make([]string, 0, n)
	for i := 0; i < n-len(q.Bad); i++ {
		switch {
		case q.Dup && i > 0 && i%3 == 0:
			out = append(out, out[i-1])
		case i%2 == 0 && i/2 < len(real):
			out = append(out, real[i/2])
		default: // well-formed, unknown
			out = append(out, fmt.Sprintf("%d-%d", 1600000000000+salt, i))
		}
	}
	for i, b := range q.Bad {
		s := refID(b, real)
		if strings.Contains(b.S, "%s") {
			s = fmt.Sprintf(b.S, real[i%len(real)])
		}
		at := q.At[i] % (len(out) + 1)
		out = append(out[:at:at], append([]string{s}, out[at:]...)...)
	}
	return out
}

func run14(x *X, ci any) (res R) {
	cs := ci.(*Case14)
	env := baseEnv()
	lim := 500
	if cs.Limit > 0 {
		lim = cs.Limit
		env["OM_MAX_STATE_UPDATES_PER_CALL"] = fmt.Sprint(cs.Limit)
	}
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, min(cs.N, lim))
	if rr != nil {
		return *rr
	}
	active := map[string]bool{}
	for _, id := range ids {
		active[id] = true
	}
	called := 0
	var cm sync.Mutex
	mmf := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		cm.Lock()
		called++
		cm.Unlock()
		return nil
	})
	salt := 0
	boundary, mixed, refused := false, false, false
	for gi, grp := range cs.Grps {
		from := 0
		if rd != nil {
			from = rd.LogLen()
		}
		out := make([]*R, len(grp))
		lo, hi := map[string]int{}, map[string]int{} // updates: at least, at most
		var wg sync.WaitGroup
		for qi, q := range grp {
			salt++
			marker := fmt.Sprintf("m%d", salt)
			var list []string
			if q.Lack != "ids" && q.Op != "create" && q.Op != "invoke" && !q.None {
				list = q.ids(ids, lim, salt)
			}
			nGood := 0
			cnt := map[string]int{}
			for _, id := range list {
				if idClass(id) > 0 {
					nGood++
				}
				cnt[id]++
			}
			// verdict: refuse, accept, either
			verdict := "accept"
			switch {
			case q.Lack != "":
				verdict = "refuse"
			case len(list) > lim && nGood > lim:
				verdict = "refuse"
			case len(list) > lim:
				verdict = "either"
			}
			mustOK := verdict == "accept" && nGood == len(list)
			for _, id := range list {
				if idClass(id) == 2 {
					mustOK = false
				}
			}
			kind := map[string]string{"act": "activate", "deact": "deactivate", "assign": "assign"}[q.Op]
			suffix := ""
			if q.Op == "assign" && q.Asg > 0 {
				suffix = "=" + marker
			} else if q.Op == "assign" {
				suffix = "="
			}
			if verdict != "refuse" {
				for id, n := range cnt {
					k := kind + " " + id + suffix
					switch idClass(id) {
					case 1:
						if verdict == "accept" {
							lo[k]++
						}
						hi[k] += n
					case 2:
						hi[k] += n
					}
				}
			}
			if q.Op == "create" && q.Lack == "" {
				lo["ticket "+marker]++
				hi["ticket "+marker]++
			}
			if verdict == "refuse" {
				refused = true
			}
			if q.Ex && (q.D == 0 || q.D == 1) && len(q.Bad) == 0 {
				boundary = true
			}
			if nGood > 0 && nGood < len(list) && verdict == "accept" {
				mixed = true
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := rpcCtx(x)
				defer cancel()
				var err error
				switch q.Op {
				case "create":
					r := &pb.CreateTicketRequest{}
					if q.Lack == "" {
						r.Ticket = &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"marker": marker}}}
					}
					_, err = c.Client.CreateTicket(ctx, r)
				case "act":
					_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: list})
				case "deact":
					_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: list})
				case "assign":
					r := &pb.CreateAssignmentsRequest{}
					if q.Lack != "roster" {
						r.AssignmentRoster = &pb.Roster{}
						for _, id := range list {
							r.AssignmentRoster.Tickets = append(r.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
						}
						if q.Lack != "assignment" {
							r.AssignmentRoster.Assignment = &pb.Assignment{}
							if q.Asg > 0 {
								r.AssignmentRoster.Assignment.Connection = marker
							} else {
								r.AssignmentRoster.Assignment.Extensions = extPB(map[string]AnyS{"k": {Type: "x", Val: []byte("v")}})
							}
						}
					}
					_, err = c.Client.CreateAssignments(ctx, r)
				case "invoke":
					r := &pb.MmfRequest{}
					if q.Lack == "mmfs" {
						r.Profile = &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {}}}
					}
					if q.Lack == "profile" {
						r.Mmfs = []*pb.MatchmakingFunctionSpec{mmf.Spec("f")}
					}
					var st pb.OpenMatchService_InvokeMatchmakingFunctionsClient
					if st, err = c.Client.InvokeMatchmakingFunctions(ctx, r); err == nil {
						_, err = st.Recv()
					}
				}
				set := func(r R) { out[qi] = &r }
				what := fmt.Sprintf("group %d: %s (%s missing, %d ids, %d well-formed, limit %d)", gi, q.Op, or(q.Lack, "nothing"), len(list), nGood, lim)
				if m, d := c.CrashedSoon(err); d {
					set(bad("%s: %s", what, m))
					return
				}
				switch {
				case ctx.Err() != nil:
					set(live("%s: no answer", what))
				case verdict == "refuse" && status.Code(err) != codes.InvalidArgument:
					set(bad("%s was answered with %v instead of InvalidArgument", what, err))
				case mustOK && err != nil:
					set(bad("%s was answered with %v", what, err))
				}
			}()
			if cs.Mem && verdict == "accept" {
				for _, id := range list {
					if idClass(id) == 1 && q.Op == "act" {
						if _, ok := active[id]; ok {
							active[id] = true
						}
					}
					if idClass(id) == 1 && q.Op == "deact" {
						if _, ok := active[id]; ok {
							active[id] = false
						}
					}
				}
			}
			if cs.Mem && verdict == "either" {
				return R{Skip: "undefined"}
			}
		}
		wg.Wait()
		for _, r := range out {
			if r != nil {
				return *r
			}
		}
		if rd != nil {
			if r := logDelta14(rd, from, lo, hi, gi, c); r != nil {
				return *r
			}
		}
	}
	// nothing comes later either
	from := 0
	if rd != nil {
		from = rd.LogLen()
	}
	if err := c.sync1(x.T(30 * time.Second)); err != nil {
		return badErr("sync", err)
	}
	if rd != nil {
		if r := logDelta14(rd, from, nil, nil, -1, c); r != nil {
			return *r
		}
	} else {
		got, err := c.Query(map[string]*pb.Pool{"t": {TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "a"}}}})
		if err != nil {
			return badErr("query", err)
		}
		want := []string{}
		for _, id := range sortedKeys(active) {
			if active[id] {
				want = append(want, id)
			}
		}
		if g := c.ids(got["t"]); !eqStrs(g, want) {
			return bad("active tickets at the end: %s", diffStrs(g, want))
		}
	}
	cm.Lock()
	defer cm.Unlock()
	if called > 0 {
		return bad("a match function was called by a request without profile")
	}
	res.Nontriv = refused && (boundary || mixed)
	if boundary {
		res.Labels = append(res.Labels, "at-limit")
	}
	if mixed {
		res.Labels = append(res.Labels, "mixed-ids")
	}
	if refused {
		res.Labels = append(res.Labels, "refused")
	}
	return res
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func logDelta14(rd *FakeRedis, from int, lo, hi map[string]int, g int, c *Core) *R {
	have := map[string]int{}
	for _, e := range rd.LogCopy()[from:] {
		if e.Conn == 0 {
			continue // written by the harness
		}
		u, ok := parseUpd(e.Fields)
		k := u.kind + " " + u.key
		if u.kind == "assign" {
			k += "=" + u.val
		}
		if !ok {
			r := bad("after group %d: state storage contains an update nobody asked for: %q", g, e.Fields)
			return &r
		}
		have[k]++
		if have[k] > hi[k] {
			r := bad("after group %d: update %q is %d times in state storage; at most %d were to be made", g, k, have[k], hi[k])
			return &r
		}
	}
	for k, n := range lo {
		if have[k] < n {
			r := bad("after group %d: update %q is %d times in state storage instead of %d", g, k, have[k], n)
			return &r
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID:       "C14",
		Rule:     "A case is a limit of updates per call (1-3000 or the default) and 2-12 (groups of concurrent) requests: lacking a required part, with a number of updates below, at and above the limit, with malformed ids anywhere among well-formed ones, repeated ids, assignments with and without content. Compared: status code, and exactly which updates reached state storage (in-memory storage: which tickets are active). Non-trivial: a request was to be refused and another was at the limit or mixed malformed with well-formed ids.",
		Quick:    2400,
		Thorough: 24000,
		New:      func() any { return &Case14{} },
		Gen:      genCase14,
		Run:      run14,
		Assume:   []string{"Not judged: ids of digits, a dash and digits whose numbers are out of range, requests that exceed the limit only because of malformed ids, and assignments without any content."},
	})
}
