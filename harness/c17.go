package main

import (
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"open-match.dev/functions/golang/battleroyale"
	"open-match.dev/functions/golang/soloduel"
	"open-match.dev/functions/golang/teamshooter"
	"open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C17: the supplied match functions build complete, disjoint matches.

type Pool17 struct {
	Pool11
	From int // first ticket of the universe; N tickets from there on
}

type Run17 struct {
	Name     string
	Ext      map[string]AnyS
	Chunks   int
	Pools    []*Pool17
	SendFail int
	FailAt   int // -1: the request is complete
}

type Case17 struct {
	Fn   string
	Runs []*Run17 // concurrently on one server value
	GRPC bool     // through StartServer and a real connection
	Tix  []*TicketS
	Pad  int
}

func genRun17(t *rapid.T, fn string, big bool) *Run17 {
	r := &Run17{Name: rapid.StringN(0, 8, 20).Draw(t, "name"), Ext: genExt(t, 1), FailAt: -1}
	r.Chunks = rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "chunks")
	add := func(key string, n, from int) {
		p := &Pool17{From: from}
		p.Key, p.N, p.P = key, n, &PoolS{}
		p.cut(t, r.Chunks)
		r.Pools = append(r.Pools, p)
	}
	extra := rapid.IntRange(0, 3).Draw(t, "extra")
	if big {
		n := rapid.SampledFrom([]int{1001, 1030, 2100, 5200}).Draw(t, "bign")
		switch fn {
		case "soloduel":
			add("pool", 2*n, 0)
		case "battleroyale":
			add("competitive", 10*n, 0)
		case "teamshooter":
			add("healer", 2*n, 0)
			add("tank", 2*n+1, 2*n)
			add("dps", 6*n+3, 4*n+1)
		}
		return r
	}
	switch fn {
	case "soloduel":
		for i := 0; i < rapid.IntRange(0, 5).Draw(t, "np"); i++ {
			n := rapid.SampledFrom([]int{0, 1, 2, 3, 7, 50}).Draw(t, "n")
			add(fmt.Sprintf("pool%d", i), n, rapid.IntRange(0, 60).Draw(t, "from"))
		}
	case "battleroyale":
		if rapid.IntRange(0, 9).Draw(t, "has") > 0 {
			add("competitive", rapid.SampledFrom([]int{100, 0, 1, 99, 101, 199, 200, 201, 250, 999, 1000}).Draw(t, "n"), rapid.IntRange(0, 5).Draw(t, "from"))
		}
		for i := 0; i < extra; i++ {
			add([]string{"all", "casual", "region_1"}[i], rapid.SampledFrom([]int{0, 1, 100, 250}).Draw(t, "n"), rapid.IntRange(0, 300).Draw(t, "from"))
		}
	case "teamshooter":
		k := rapid.SampledFrom([]int{0, 1, 2, 3, 10, 60}).Draw(t, "k")
		from := 0
		over := rapid.IntRange(0, 3).Draw(t, "over") == 2 // classes that a player can combine
		for i, role := range []string{"tank", "healer", "dps"} {
			if rapid.IntRange(0, 14).Draw(t, "absent") == 14 {
				continue
			}
			n := k * []int{2, 2, 6}[i]
			n = max(0, n+rapid.SampledFrom([]int{0, 1, 5, 2, -1, 20, -3}).Draw(t, "d"))
			add(role, n, from)
			from += n
			if over {
				from = max(0, from-rapid.SampledFrom([]int{1, 0, 2, 7, 30, 200}).Draw(t, "back"))
			}
		}
		for i := 0; i < extra; i++ {
			add([]string{"support", "Tank", "dps "}[i], rapid.IntRange(0, 9).Draw(t, "n"), from)
			from += 10
		}
	}
	switch rapid.IntRange(0, 11).Draw(t, "bad") {
	case 10:
		r.SendFail = rapid.IntRange(1, 4).Draw(t, "sf")
	case 11:
		r.FailAt = rapid.IntRange(0, r.Chunks-1).Draw(t, "fa")
	}
	return r
}

func genCase17(t *rapid.T) any {
	c := &Case17{Fn: pick(t, []string{"soloduel", "battleroyale", "teamshooter"}, "fn")}
	c.GRPC = rapid.IntRange(0, 7).Draw(t, "grpc") == 7
	big := rapid.IntRange(0, 799).Draw(t, "big") == 431 // over 1000 matches
	if big {
		c.GRPC = false
	}
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "runs"); i > 0; i-- {
		c.Runs = append(c.Runs, genRun17(t, c.Fn, big))
		if big {
			break
		}
	}
	for i := rapid.IntRange(1, 3).Draw(t, "ntix"); i > 0; i-- {
		c.Tix = append(c.Tix, genTicket(t, true))
	}
	if c.GRPC && rapid.IntRange(0, 3).Draw(t, "pad") == 0 {
		// chunks stay below the limit of a gRPC message, as the core's do
		most := 1
		for _, r := range c.Runs {
			n := 0
			for _, p := range r.Pools {
				n += p.N
			}
			most = max(most, n)
		}
		c.Pad = max(0, min(rapid.SampledFrom([]int{1000, 10000}).Draw(t, "padn"), 3300000/most-600))
	}
	return c
}

func (c *Case17) ticket(i int) *pb.Ticket {
	t := *c.Tix[i%len(c.Tix)]
	t.Pad = c.Pad
	p := t.PB()
	p.Id = fmt.Sprintf("17000000%05d-%d", i/3, i%3)
	return p
}

func (c *Case17) chunks(r *Run17) []*pb.ChunkedMmfRunRequest {
	var out []*pb.ChunkedMmfRunRequest
	pos := map[string]int{}
	for k := 0; k < r.Chunks; k++ {
		pr := &pb.Profile{Name: r.Name, Extensions: extPB(r.Ext), Pools: map[string]*pb.Pool{}}
		for _, p := range r.Pools {
			n, m := p.Cuts[k], p.Mode[k]
			if n == 0 && m == 2 {
				continue
			}
			q := &pb.Pool{Name: p.Key}
			if n > 0 || m == 0 {
				q.Participants = &pb.Roster{}
				for i := 0; i < n; i++ {
					q.Participants.Tickets = append(q.Participants.Tickets, c.ticket(p.From+pos[p.Key]+i))
				}
			}
			pos[p.Key] += n
			pr.Pools[p.Key] = q
		}
		out = append(out, &pb.ChunkedMmfRunRequest{Profile: pr, NumChunks: int32(r.Chunks)})
	}
	return out
}

var srv17 = map[string]int{}
var srv17mu sync.Mutex

// recoverFn turns a panic of a function into an error, so that it does not end the harness.
type recoverFn struct {
	pb.MatchMakingFunctionServiceServer
}

func (f *recoverFn) Run(s pb.MatchMakingFunctionService_RunServer) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f.MatchMakingFunctionServiceServer.Run(s)
}

func fn17(name string) pb.MatchMakingFunctionServiceServer {
	switch name {
	case "soloduel":
		return &soloduel.MmfServer{}
	case "battleroyale":
		return &battleroyale.MmfServer{}
	}
	return &teamshooter.MmfServer{}
}

// serve17 starts the function's server once per process.
func serve17(name string) int {
	srv17mu.Lock()
	defer srv17mu.Unlock()
	if p := srv17[name]; p != 0 {
		return p
	}
	p := freePort()
	srv17[name] = p
	go server.StartServer(int32(p), &recoverFn{MatchMakingFunctionServiceServer: fn17(name)})
	return p
}

// check17 judges the matches of one run. complete: the request arrived completely and nothing failed.
func (c *Case17) check17(r *Run17, ms []*pb.Match, complete bool) string {
	role := map[string]map[string]bool{} // id -> pools
	byID := map[string]string{}
	for _, p := range r.Pools {
		for i := 0; i < p.N; i++ {
			t := c.ticket(p.From + i)
			if byID[t.Id] == "" {
				byID[t.Id] = detBytes(t)
			}
			if c.Fn != "battleroyale" || p.Key == "competitive" {
				if role[t.Id] == nil {
					role[t.Id] = map[string]bool{}
				}
				role[t.Id][p.Key] = true
			}
		}
	}
	used := map[string]bool{}
	mids := map[string]bool{}
	for i, m := range ms {
		if mids[m.GetId()] {
			return fmt.Sprintf("match id %q is used twice", m.GetId())
		}
		mids[m.GetId()] = true
		total := 0
		for rn, ro := range m.GetRosters() {
			for _, t := range ro.GetTickets() {
				w, ok := byID[t.GetId()]
				if !ok || role[t.GetId()] == nil {
					return fmt.Sprintf("match %d uses ticket %q, which is not in the function's pool of the profile", i, t.GetId())
				}
				if detBytes(t) != w {
					return fmt.Sprintf("match %d changed ticket %s: %s", i, t.GetId(), head(t.String(), 300))
				}
				if used[t.GetId()] {
					return fmt.Sprintf("match %d uses ticket %s, which was used before in this run", i, t.GetId())
				}
				used[t.GetId()] = true
				total++
			}
			if c.Fn == "teamshooter" && !team17(ro.GetTickets(), role) {
				var l []string
				for _, t := range ro.GetTickets() {
					l = append(l, fmt.Sprint(role[t.GetId()]))
				}
				return fmt.Sprintf("match %d: team %q consists of %v", i, rn, l)
			}
		}
		want := map[string]int{"soloduel": 2, "battleroyale": 100, "teamshooter": 10}[c.Fn]
		if total != want {
			return fmt.Sprintf("match %d has %d tickets instead of %d", i, total, want)
		}
		if c.Fn == "teamshooter" && len(m.GetRosters()) != 2 {
			return fmt.Sprintf("match %d has %d teams", i, len(m.GetRosters()))
		}
	}
	if !complete {
		return ""
	}
	n := map[string]int{}
	overlap := false
	for _, ks := range role {
		cls := 0
		last := ""
		for k := range ks {
			if k == "tank" || k == "healer" || k == "dps" {
				cls++
				last = k
			}
		}
		if cls == 1 {
			n[last]++
		}
		overlap = overlap || cls > 1
	}
	want := 0
	switch c.Fn {
	case "soloduel":
		want = len(role) / 2
	case "battleroyale":
		want = len(role) / 100
	case "teamshooter":
		want = min(n["tank"]/2, n["healer"]/2, n["dps"]/6)
		if overlap && len(ms) > want {
			want = len(ms) // which tickets of several classes to use for what is up to the function
		}
	}
	if len(ms) != want {
		return fmt.Sprintf("%d matches were made; the tickets (%v) allow %d", len(ms), n, want)
	}
	return ""
}

// team17 tells if the tickets are a tank, a healer and three damage dealers.
func team17(ts []*pb.Ticket, role map[string]map[string]bool) bool {
	if len(ts) != 5 {
		return false
	}
	for i := range ts {
		for j := range ts {
			if i == j || !role[ts[i].GetId()]["tank"] || !role[ts[j].GetId()]["healer"] {
				continue
			}
			ok := true
			for k := range ts {
				ok = ok && (k == i || k == j || role[ts[k].GetId()]["dps"])
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func run17(x *X, ci any) (res R) {
	cs := ci.(*Case17)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first *R
	fail := func(r R) {
		mu.Lock()
		if first == nil {
			first = &r
		}
		mu.Unlock()
	}
	fn := fn17(cs.Fn)
	var conn *grpc.ClientConn
	if cs.GRPC {
		var err error
		conn, err = grpc.Dial(fmt.Sprintf("127.0.0.1:%d", serve17(cs.Fn)), grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithDefaultCallOptions(grpc.WaitForReady(true)))
		if err != nil {
			return R{Skip: err.Error()}
		}
		defer conn.Close()
	}
	nm := 0
	for i, r := range cs.Runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail(bad("run %d of %s panicked: %v", i, cs.Fn, p))
				}
			}()
			ch := cs.chunks(r)
			var ms []*pb.Match
			complete := r.FailAt < 0
			over := false // a chunk above the limit of a gRPC message, which the core does not send
			for _, in := range ch {
				over = over || proto.Size(in) > 4000000
			}
			if conn != nil && !over {
				ctx, cancel := context.WithTimeout(context.Background(), x.T(20*time.Second))
				defer cancel()
				st, err := pb.NewMatchMakingFunctionServiceClient(conn).Run(ctx)
				if err != nil {
					fail(live("calling %s failed: %v", cs.Fn, err))
					return
				}
				for k, in := range ch {
					if k == r.FailAt {
						break
					}
					if st.Send(in) != nil {
						break
					}
				}
				st.CloseSend()
				for {
					m, err := st.Recv()
					if err == io.EOF {
						break
					}
					if err != nil {
						if complete {
							fail(live("run %d of %s failed: %v", i, cs.Fn, err))
							return
						}
						break
					}
					ms = append(ms, m.GetMatch())
				}
			} else {
				f := &fakeRun{ctx: context.Background(), fail: io.EOF, sendFail: r.SendFail}
				for _, in := range ch {
					f.in = append(f.in, wireCopy(in))
				}
				if r.FailAt >= 0 {
					f.in = f.in[:r.FailAt]
				}
				err := fn.Run(f)
				ms = f.sent
				if r.SendFail > 0 {
					complete = false
				}
				if err != nil && complete {
					fail(bad("run %d of %s failed: %v", i, cs.Fn, err))
					return
				}
			}
			if s := cs.check17(r, ms, complete); s != "" {
				fail(bad("%s, run %d: %s", cs.Fn, i, s))
			}
			mu.Lock()
			nm += len(ms)
			mu.Unlock()
		}()
	}
	wg.Wait()
	if first != nil {
		return *first
	}
	res.Nontriv = nm > 1
	res.Labels = []string{cs.Fn}
	if nm > 1000 {
		res.Labels = append(res.Labels, "over-1000-matches")
	}
	if nm > 1 {
		res.Labels = append(res.Labels, cs.Fn+"-with-matches")
	}
	if cs.GRPC {
		res.Labels = append(res.Labels, "grpc")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C17",
		Rule:     "A case is one to three concurrent runs of one of the three functions, called directly or through its gRPC server, with profiles whose pools have sizes around the numbers the function needs (overlapping pools for the solo duel and the team shooter), spread over 1-5 chunks in any way, some with a request that ends early or a caller that goes away. Non-trivial: at least two matches were made.",
		Quick:    50000,
		Thorough: 300000,
		New:      func() any { return &Case17{} },
		Gen:      genCase17,
		Run:      run17,
		Assume:   []string{"The tank, healer and dps pools of one profile do not share tickets; no pool contains a ticket twice."},
	})
}
