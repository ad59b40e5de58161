package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C11: the match function helper reassembles any chunked profile exactly.

type fakeRun struct {
	grpc.ServerStream
	ctx   context.Context
	in    []*pb.ChunkedMmfRunRequest
	fail  error // after the chunks
	recvs int
	sent  []*pb.Match
	// sendFail: the n-th Send fails (0: none)
	sendFail int
}

func (f *fakeRun) Context() context.Context { return f.ctx }
func (f *fakeRun) Recv() (*pb.ChunkedMmfRunRequest, error) {
	f.recvs++
	if f.recvs <= len(f.in) {
		return f.in[f.recvs-1], nil
	}
	return nil, f.fail
}
func (f *fakeRun) Send(r *pb.StreamedMmfResponse) error {
	if f.sendFail > 0 && len(f.sent)+1 >= f.sendFail {
		return status.Error(codes.Unavailable, "gone")
	}
	f.sent = append(f.sent, wireCopy(r.GetMatch()))
	return nil
}

type Pool11 struct {
	Key  string
	P    *PoolS
	N    int   // tickets
	Cuts []int // number of tickets in each chunk; the last chunk has the rest
	Same int   `json:",omitempty"` // ids: 0 all different, 1 every two tickets, 2 every three, 3 all empty, 4 alternating between two; 5: all tickets equal
	Mode []int // per chunk, when it carries no ticket: 0 roster without tickets, 1 no roster, 2 pool absent
}

type Case11 struct {
	Name   string
	Ext    map[string]AnyS
	Chunks int
	Pools  []*Pool11
	Tix    []*TicketS // cycled
	FailAt int        // -1: no failure; else the stream ends after so many chunks
	Fail   string     // eof, cancelled, internal, plain
	More   int        // further chunks in the stream beyond the announced ones
}

func genCase11(t *rapid.T) any {
	c := &Case11{Name: rapid.StringN(0, 10, 30).Draw(t, "name"), Ext: genExt(t, 2), FailAt: -1}
	c.Chunks = rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 9, 30}).Draw(t, "chunks")
	genC11Pools(t, c, nil)
	for i := rapid.IntRange(1, 4).Draw(t, "ntix"); i > 0; i-- {
		c.Tix = append(c.Tix, genTicket(t, true))
	}
	if rapid.IntRange(0, 3).Draw(t, "fails") == 3 {
		c.FailAt = rapid.IntRange(0, c.Chunks-1).Draw(t, "failat")
		c.Fail = pick(t, []string{"eof", "cancelled", "internal", "plain"}, "fail")
	} else {
		c.More = rapid.IntRange(0, 2).Draw(t, "more")
	}
	return c
}

func genC11Pools(t *rapid.T, c *Case11, keys []string) {
	seen := map[string]bool{}
	np := rapid.IntRange(0, 5).Draw(t, "np")
	if keys != nil {
		np = len(keys)
	}
	for i := 0; i < np; i++ {
		p := &Pool11{Key: fmt.Sprintf("p%d", i), P: &PoolS{}}
		if keys != nil {
			p.Key = keys[i]
		} else if rapid.IntRange(0, 4).Draw(t, "pk") == 0 {
			p.Key = rapid.StringN(0, 5, 20).Draw(t, "key")
		}
		if seen[p.Key] {
			continue
		}
		seen[p.Key] = true
		if keys == nil {
			p.P = genPool(t)
			p.P.Name = rapid.StringN(0, 5, 20).Draw(t, "pname")
			p.P.Ext = genExt(t, 2)
			if rapid.IntRange(0, 3).Draw(t, "cr") == 0 {
				p.P.Cr = &CrF{Start: &TS{S: 5}, End: &TS{S: 9, N: 7}, Bounds: int32(rapid.IntRange(0, 3).Draw(t, "crb"))}
			}
			p.N = rapid.SampledFrom([]int{0, 1, 2, 5, 20, 200}).Draw(t, "n")
		}
		if keys == nil && rapid.IntRange(0, 3).Draw(t, "dup") == 3 {
			p.Same = rapid.IntRange(1, 5).Draw(t, "same")
		}
		p.cut(t, c.Chunks)
		c.Pools = append(c.Pools, p)
	}
}

// cut chooses how the pool's tickets are spread.
func (p *Pool11) cut(t *rapid.T, chunks int) {
	left := p.N
	style := rapid.IntRange(0, 3).Draw(t, "style")
	for k := 0; k < chunks; k++ {
		n := 0
		switch {
		case k == chunks-1:
			n = left
		case style == 0: // everything late
		case style == 1 && k == 0: // everything at once
			n = left
		case style == 2: // evenly
			n = min(left, p.N/chunks+1)
		case style == 3:
			n = rapid.IntRange(0, left).Draw(t, "cut")
			if rapid.Bool().Draw(t, "none") {
				n = 0
			}
		}
		left -= n
		p.Cuts = append(p.Cuts, n)
		m := 0
		if n == 0 {
			m = rapid.IntRange(0, 2).Draw(t, "mode")
		}
		p.Mode = append(p.Mode, m)
	}
	if p.N == 0 {
		// the pool has to appear somewhere
		k := rapid.IntRange(0, chunks-1).Draw(t, "appear")
		if p.Mode[k] == 2 {
			p.Mode[k] = rapid.IntRange(0, 1).Draw(t, "amode")
		}
	}
}

func (c *Case11) build() (chunks []*pb.ChunkedMmfRunRequest, full map[string][]*pb.Ticket) {
	full = map[string][]*pb.Ticket{}
	for _, p := range c.Pools {
		full[p.Key] = []*pb.Ticket{}
		for i := 0; i < p.N; i++ {
			t := &pb.Ticket{}
			if len(c.Tix) > 0 {
				t = c.Tix[i%len(c.Tix)].PB()
			}
			switch p.Same {
			case 0:
				t.Id = fmt.Sprintf("%s-%d", p.Key, i)
			case 1, 2:
				t.Id = fmt.Sprintf("%s-%d", p.Key, i/(p.Same+1))
			case 4:
				t.Id = fmt.Sprintf("%s-%d", p.Key, i%2)
			case 5:
				if len(c.Tix) > 0 {
					t = c.Tix[0].PB()
				}
				t.Id = "same"
			}
			full[p.Key] = append(full[p.Key], t)
		}
	}
	pos := map[string]int{}
	for k := 0; k < c.Chunks+c.More; k++ {
		pr := &pb.Profile{Name: c.Name, Extensions: extPB(c.Ext), Pools: map[string]*pb.Pool{}}
		for _, p := range c.Pools {
			n, m := 0, 0
			if k < c.Chunks {
				n, m = p.Cuts[k], p.Mode[k]
			}
			if n == 0 && m == 2 {
				continue
			}
			q := p.P.PB()
			if n > 0 || m == 0 {
				q.Participants = &pb.Roster{Name: p.Key + "_roster", Tickets: full[p.Key][pos[p.Key] : pos[p.Key]+n]}
			}
			pos[p.Key] += n
			pr.Pools[p.Key] = q
		}
		chunks = append(chunks, wireCopy(&pb.ChunkedMmfRunRequest{Profile: pr, NumChunks: int32(c.Chunks)}))
	}
	return
}

func (c *Case11) stream() (*fakeRun, map[string][]*pb.Ticket) {
	ch, full := c.build()
	f := &fakeRun{ctx: context.Background(), in: ch, fail: io.EOF}
	if c.FailAt >= 0 {
		f.in = ch[:c.FailAt]
		f.fail = map[string]error{"eof": io.EOF, "cancelled": context.Canceled, "internal": status.Error(codes.Internal, "x"), "plain": errors.New("x")}[c.Fail]
	}
	return f, full
}

func run11(x *X, ci any) (res R) {
	cs := ci.(*Case11)
	f, full := cs.stream()
	defer func() {
		if p := recover(); p != nil {
			res = bad("GetChunkedRequest panicked: %v", p)
		}
	}()
	got, err := server.GetChunkedRequest(f)
	res = R{Nontriv: cs.Chunks > 1 && len(cs.Pools) > 0}
	if cs.FailAt >= 0 {
		res.Labels = []string{"fails"}
		if err == nil {
			return bad("no error although the stream ended (%s) after %d of %d chunks", cs.Fail, cs.FailAt, cs.Chunks)
		}
		if got != nil {
			return bad("an error, but also a profile: %v", head(got.String(), 300))
		}
		return res
	}
	if err != nil {
		return bad("error on a complete request of %d chunks: %v", cs.Chunks, err)
	}
	if f.recvs != cs.Chunks {
		return bad("read %d messages of a request of %d chunks", f.recvs, cs.Chunks)
	}
	if got.GetName() != cs.Name {
		return bad("profile name %q instead of %q", got.GetName(), cs.Name)
	}
	if !eqExt(got.GetExtensions(), extPB(cs.Ext)) {
		return bad("profile extensions %v instead of %v", got.GetExtensions(), extPB(cs.Ext))
	}
	if len(got.GetPools()) != len(cs.Pools) {
		return bad("%d pools instead of %d", len(got.GetPools()), len(cs.Pools))
	}
	for _, p := range cs.Pools {
		q, ok := got.GetPools()[p.Key]
		if !ok {
			return bad("pool %q is missing", p.Key)
		}
		cl := &pb.Pool{Name: q.GetName(), TagPresentFilters: q.GetTagPresentFilters(), StringEqualsFilters: q.GetStringEqualsFilters(), DoubleRangeFilters: q.GetDoubleRangeFilters(), CreationTimeRangeFilter: q.GetCreationTimeRangeFilter(), Extensions: q.GetExtensions()}
		if detBytes(cl) != detBytes(p.P.PB()) {
			return bad("pool %q is defined as %s instead of %s", p.Key, cl, p.P.PB())
		}
		ts := q.GetParticipants().GetTickets()
		if len(ts) > 0 && q.GetParticipants().GetName() != p.Key+"_roster" {
			return bad("the participants of pool %q are a roster named %q instead of %q", p.Key, q.GetParticipants().GetName(), p.Key+"_roster")
		}
		if len(ts) != len(full[p.Key]) {
			return bad("pool %q has %d tickets instead of %d (spread over the chunks as %v, modes %v)", p.Key, len(ts), len(full[p.Key]), p.Cuts, p.Mode)
		}
		for i, t := range ts {
			if detBytes(t) != detBytes(full[p.Key][i]) {
				return bad("pool %q: ticket %d is %s instead of %s", p.Key, i, t, full[p.Key][i])
			}
		}
		if p.Same > 0 && p.N > 1 {
			res.Labels = append(res.Labels, "repeated-ids")
		}
		n := 0
		for _, k := range p.Cuts {
			if k > 0 {
				n++
			}
		}
		if n > 1 {
			res.Labels = append(res.Labels, "pool-over-several-chunks")
		}
		for k, m := range p.Mode {
			if m == 2 {
				res.Labels = append(res.Labels, "absent-from-chunk")
			}
			if m == 1 && k == 0 && p.N > 0 {
				res.Labels = append(res.Labels, "no-roster-in-first")
			}
		}
	}
	sort.Strings(res.Labels)
	return res
}

func init() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	register(&Check{
		ID:       "C11",
		Rule:     "A case is a profile with up to 5 pools (filters, extensions, 0-200 tickets, in some pools with repeated or missing ids) split over 1-30 chunks in various ways (everything first, last, evenly, arbitrarily; pools absent, without roster or with an empty roster where they have no ticket), possibly ending or failing early, possibly followed by further messages. Non-trivial: several chunks and at least one pool.",
		Quick:    120000,
		Thorough: 2000000,
		InProc:   true,
		New:      func() any { return &Case11{} },
		Gen:      genCase11,
		Run:      run11,
	})
}
