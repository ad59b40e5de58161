package main

import (
	"context"
	"fmt"
	"io"
	"sort"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C10: matchmaking functions receive the whole profile in size-limited chunks.

type Grp10 struct {
	N    int
	Pad  int // additional bytes per ticket
	Tags []string
	Off  bool `json:",omitempty"` // not activated
}

type Pool10 struct {
	Key  string
	P    *PoolS
	Ext  int  // additional bytes in an extension of the pool
	Zero bool `json:",omitempty"` // nil pool message
}

type Case10 struct {
	Bin   string
	Name  string
	Ext   int
	Exts  map[string]AnyS
	Pools []*Pool10
	Grps  []*Grp10
	Mmfs  int
	Slow  bool // one function reads slowly
	Near  int  // >0: the extension is sized so that profile + largest ticket = 4,000,000 - Near
}

func genCase10(t *rapid.T) any {
	c := &Case10{Bin: pick(t, bins, "bin"), Name: rapid.StringN(0, 20, 60).Draw(t, "name")}
	c.Exts = genExt(t, 2)
	c.Ext = rapid.SampledFrom([]int{0, 0, 0, 10, 1000, 100000, 1000000, 3000000, 3900000}).Draw(t, "ext")
	c.Mmfs = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "mmfs")
	c.Slow = rapid.IntRange(0, 5).Draw(t, "slow") == 5
	np := rapid.IntRange(0, 8).Draw(t, "np")
	keys := map[string]bool{}
	for i := 0; i < np; i++ {
		p := &Pool10{Key: fmt.Sprintf("p%d", i), P: &PoolS{}}
		switch rapid.IntRange(0, 7).Draw(t, "pk") {
		case 0:
			p.Key = rapid.StringN(0, 6, 20).Draw(t, "key")
		case 1:
			p.P.Name = rapid.StringN(0, 6, 20).Draw(t, "pname")
		}
		if keys[p.Key] {
			continue
		}
		keys[p.Key] = true
		switch rapid.IntRange(0, 6).Draw(t, "pf") {
		case 0:
		case 1, 2, 3:
			p.P.Tags = []string{histTags[rapid.IntRange(0, 2).Draw(t, "tag")]}
		case 4:
			p.P.Tags = []string{"nobody"}
		case 5:
			p.P = genPool(t)
		case 6:
			p.P.Ext = genExt(t, 2)
			p.P.Tags = []string{"a", "b"}
		}
		if rapid.IntRange(0, 5).Draw(t, "pe") == 5 {
			p.Ext = rapid.SampledFrom([]int{100, 10000, 300000}).Draw(t, "pext")
		}
		c.Pools = append(c.Pools, p)
	}
	budget := 30000000
	for i := rapid.IntRange(0, 4).Draw(t, "ng"); i > 0; i-- {
		g := &Grp10{Off: rapid.IntRange(0, 7).Draw(t, "off") == 7}
		for _, x := range histTags {
			if rapid.Bool().Draw(t, "gt") {
				g.Tags = append(g.Tags, x)
			}
		}
		switch rapid.IntRange(0, 5).Draw(t, "gk") {
		case 0:
			g.N = rapid.SampledFrom([]int{1, 2, 10, 1000, 20000, 70000}).Draw(t, "tiny")
		case 1:
			g.Pad = rapid.IntRange(1, 5000).Draw(t, "pad")
			g.N = rapid.IntRange(1, 3000).Draw(t, "gn")
		case 2:
			g.Pad = rapid.IntRange(50000, 3990000).Draw(t, "pad")
			g.N = rapid.IntRange(1, 8).Draw(t, "gn")
		case 3, 4: // tickets that nearly fill a chunk k at a time
			k := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 10, 40}).Draw(t, "k")
			g.Pad = 4000000/k - rapid.IntRange(0, 300).Draw(t, "less")
			if k == 1 {
				g.Pad -= 200
			}
			g.N = rapid.IntRange(1, 3*k+1).Draw(t, "gn")
		case 5: // enough small ones to fill a chunk with certainty
			g.Pad = rapid.SampledFrom([]int{100, 150, 1000}).Draw(t, "pad")
			g.N = rapid.IntRange(3900000, 8000000).Draw(t, "tot") / (g.Pad + 80)
		}
		cost := (g.Pad + 100) * max(1, len(c.Pools)) * c.Mmfs
		if g.N*cost > budget {
			g.N = budget / cost
		}
		if g.N > 0 {
			budget -= g.N * cost
			c.Grps = append(c.Grps, g)
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "near") == 4 {
		c.Near = rapid.SampledFrom([]int{1, 2, 10, 30, 100, 1000}).Draw(t, "nearby")
	}
	return c
}

type got10 struct {
	chunks []*pb.ChunkedMmfRunRequest
	err    error
	eof    bool
}

func run10(x *X, ci any) R {
	cs := ci.(*Case10)
	rd, l := x.NewRedis()
	env := baseEnv()
	redisEnv(env, l)
	// tickets
	now := time.Now()
	type tk struct {
		spec *TicketS
		size int
		on   bool
	}
	tks := map[string]*tk{}
	maxT := 0
	for _, g := range cs.Grps {
		s := &TicketS{Tags: g.Tags, Pad: g.Pad, Cr: &TS{S: now.Unix()}, Ex: &TS{S: now.Unix() + 7200}}
		b := string(mustMarshal(s.PB()))
		es := make([][]string, g.N)
		for i := range es {
			es[i] = []string{"ticket", b}
		}
		ids := rd.Preload(uint64(now.UnixMilli()), es)
		as := make([][]string, 0, g.N)
		for _, id := range ids {
			m := s.PB()
			m.Id = id
			t := &tk{s, proto.Size(m), !g.Off}
			tks[id] = t
			if !g.Off {
				as = append(as, []string{"activate", id})
				maxT = max(maxT, t.size)
			}
		}
		rd.Preload(uint64(now.UnixMilli()), as)
	}
	// profile
	prof := &pb.Profile{Name: cs.Name, Extensions: extPB(cs.Exts), Pools: map[string]*pb.Pool{}}
	if prof.Extensions == nil {
		prof.Extensions = map[string]*anypb.Any{}
	}
	for _, p := range cs.Pools {
		q := p.P.PB()
		if p.Ext > 0 {
			if q.Extensions == nil {
				q.Extensions = map[string]*anypb.Any{}
			}
			q.Extensions["big"] = &anypb.Any{TypeUrl: "big", Value: make([]byte, p.Ext)}
		}
		prof.Pools[p.Key] = q
	}
	ext := cs.Ext
	if cs.Near > 0 && cs.Ext >= 1000 {
		prof.Extensions["pad"] = &anypb.Any{TypeUrl: "pad", Value: make([]byte, cs.Ext)}
		ext = max(0, cs.Ext+4000000-cs.Near-maxT-proto.Size(prof))
	}
	if ext > 0 {
		prof.Extensions["pad"] = &anypb.Any{TypeUrl: "pad", Value: make([]byte, ext)}
	}
	base := proto.Size(prof)
	fits := base+maxT <= 4000000
	if base > 3990000 { // the request itself would exceed the message limit
		return R{}
	}
	c, err := x.StartCore(env, cs.Bin)
	if err != nil {
		return R{Skip: "start: " + err.Error()}
	}
	c.Redis = rd
	if err := c.sync1(x.T(60 * time.Second)); err != nil {
		return badErr("waiting for the tickets", err)
	}
	gots := make([]*got10, cs.Mmfs)
	var mu sync.Mutex
	var specs []*pb.MatchmakingFunctionSpec
	for k := 0; k < cs.Mmfs; k++ {
		m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
			g := &got10{}
			for {
				in, err := s.Recv()
				if err == io.EOF {
					g.eof = true
					break
				}
				if err != nil {
					g.err = err
					break
				}
				g.chunks = append(g.chunks, in)
				if cs.Slow && k == 0 {
					time.Sleep(20 * time.Millisecond)
				}
				if len(g.chunks) > 10000 {
					break
				}
			}
			mu.Lock()
			gots[k] = g
			mu.Unlock()
			return nil
		})
		specs = append(specs, m.Spec(fmt.Sprintf("f%d", k)))
	}
	ctx, cancel := context.WithTimeout(context.Background(), x.T(40*time.Second))
	defer cancel()
	_, err = c.Invoke(ctx, prof, specs...)
	if m, d := c.CrashedSoon(err); d {
		return bad("%s", m)
	}
	late := ctx.Err() != nil
	if err != nil && !late {
		return badErr("InvokeMatchmakingFunctions", err)
	}
	// what the pools should contain
	want := map[string][]string{}
	for id, t := range tks {
		if !t.on {
			continue
		}
		for _, p := range cs.Pools {
			if p.P.matchNoTime(t.spec) {
				want[p.Key] = append(want[p.Key], id)
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	res := R{}
	total := 0
	for k, g := range gots {
		who := fmt.Sprintf("function %d of %d", k+1, cs.Mmfs)
		if g == nil {
			if late {
				return live("%s: the request stream did not end, or it was not invoked, within the time-out", who)
			}
			return bad("%s was not invoked", who)
		}
		if g.err != nil {
			return bad("%s: its request stream failed after %d chunks: %v", who, len(g.chunks), g.err)
		}
		if len(g.chunks) == 0 {
			return bad("%s received no chunk", who)
		}
		parts := map[string][]string{}
		for i, ch := range g.chunks {
			at := fmt.Sprintf("%s, chunk %d of %d", who, i+1, len(g.chunks))
			if int(ch.GetNumChunks()) != len(g.chunks) {
				return bad("%s announces %d chunks", at, ch.GetNumChunks())
			}
			if sz := proto.Size(ch); fits && sz > 4*1024*1024 {
				return bad("%s has %d bytes; profile %d bytes, largest ticket %d bytes", at, sz, base, maxT)
			}
			p := ch.GetProfile()
			if p.GetName() != prof.Name {
				return bad("%s: profile name %q instead of %q", at, p.GetName(), prof.Name)
			}
			if !eqExt(p.GetExtensions(), prof.Extensions) {
				return bad("%s: the profile's extensions were changed", at)
			}
			for key, q := range prof.Pools {
				r, ok := p.GetPools()[key]
				if !ok {
					return bad("%s: pool %q is missing", at, key)
				}
				cl := &pb.Pool{Name: r.GetName(), TagPresentFilters: r.GetTagPresentFilters(), StringEqualsFilters: r.GetStringEqualsFilters(), DoubleRangeFilters: r.GetDoubleRangeFilters(), CreationTimeRangeFilter: r.GetCreationTimeRangeFilter(), Extensions: r.GetExtensions()}
				if detBytes(cl) != detBytes(q) {
					return bad("%s: the definition of pool %q is %s instead of %s", at, key, head(cl.String(), 300), head(q.String(), 300))
				}
				for _, t := range r.GetParticipants().GetTickets() {
					if c.IsSync(t) {
						continue
					}
					parts[key] = append(parts[key], t.GetId())
					w := tks[t.GetId()]
					if w == nil {
						return bad("%s: pool %q contains an unknown ticket %s", at, key, t.GetId())
					}
					if proto.Size(t) != w.size {
						return bad("%s: ticket %s has %d bytes instead of %d", at, t.GetId(), proto.Size(t), w.size)
					}
				}
			}
			if len(p.GetPools()) != len(prof.Pools) {
				return bad("%s has %d pools instead of %d", at, len(p.GetPools()), len(prof.Pools))
			}
		}
		for key := range prof.Pools {
			sort.Strings(want[key])
			sort.Strings(parts[key])
			total += len(want[key])
			if !eqStrs(parts[key], want[key]) {
				return bad("%s: pool %q over all %d chunks: %s", who, key, len(g.chunks), diffStrs(parts[key], want[key]))
			}
		}
		if !g.eof {
			return live("%s: the request stream did not end after %d chunks", who, len(g.chunks))
		}
		if len(g.chunks) > 1 {
			res.Nontriv = true
			res.Labels = append(res.Labels, "chunks>1")
		}
		if len(g.chunks) > 4 {
			res.Labels = append(res.Labels, "chunks>4")
		}
	}
	if late {
		return live("the invocation did not end")
	}
	if !fits {
		res.Labels = append(res.Labels, "does-not-fit")
	}
	if total > 5000 {
		res.Labels = append(res.Labels, "tickets>5000")
	}
	if cs.Mmfs > 1 {
		res.Labels = append(res.Labels, "several-functions")
	}
	return res
}

func eqExt(a, b map[string]*anypb.Any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if w, ok := a[k]; !ok || !proto.Equal(v, w) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		ID:       "C10",
		Rule:     "A case is a profile (0-8 pools with filters and extensions, extensions up to 3.9 MB, sizes next to the limit) and a ticket population (groups of 1 to 70,000 tickets of 60 bytes to 3.99 MB, sized to fall on chunk boundaries, shared by several pools), invoked with 1-3 functions. Every chunk received is checked. Non-trivial: some function received more than one chunk.",
		Quick:    1000,
		Thorough: 6000,
		New:      func() any { return &Case10{} },
		Gen:      genCase10,
		Run:      run10,
	})
}
