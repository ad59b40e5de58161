package main

import (
	"fmt"
	"io"
	"net"
	"slices"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// Scripted match functions, shared by several checks.

// TRef names a ticket of a match: one of the case's tickets, or any text.
type TRef struct {
	I    int    // >=0: ticket of the case
	S    string `json:",omitempty"` // else: this id; "%s" stands for a real id
	Full bool   `json:",omitempty"` // carry more than the id
}

type RosS struct {
	Key string
	Nam string          `json:",omitempty"`
	T   []TRef          `json:",omitempty"`
	Asg string          `json:",omitempty"`
	Ext map[string]AnyS `json:",omitempty"`
}

type MatchS struct {
	Nil  bool            `json:",omitempty"`
	ID   string          `json:",omitempty"`
	Ros  []*RosS         `json:",omitempty"`
	Ext  map[string]AnyS `json:",omitempty"`
	Pad  int             `json:",omitempty"`
	All  int             `json:",omitempty"` // a further roster with so many tickets
	Wait int             `json:",omitempty"` // ms before it is sent
}

type FnS struct {
	Kind  string // grpc, rest, unreachable, unimpl, blackhole, or a host
	Early bool   `json:",omitempty"` // sends before it reads its request
	M     []*MatchS
	Addr  string `json:",omitempty"` // how it is addressed: "", low (port), joined (port in the host), localhost, dns
	End   string `json:",omitempty"` // "", error, oversize, drop, hang, deaf
	Code  int    `json:",omitempty"`
	Wait  int    `json:",omitempty"` // ms before the end
}

type fnRun struct {
	f       *FnS
	spec    *pb.MatchmakingFunctionSpec
	sent    []*pb.Match
	at      []time.Time
	started int
	done    int
	ctxDone time.Time
	begun   time.Time
	early   bool // ctx was over before the script was
	mu      sync.Mutex
}

func (m *MatchS) pb(ids []string) *pb.Match {
	if m.Nil {
		return nil
	}
	out := &pb.Match{Id: m.ID, Extensions: extPB(m.Ext)}
	if m.Pad > 0 {
		out.Extensions = extPB(map[string]AnyS{"pad": {Type: "pad", Val: make([]byte, m.Pad)}})
	}
	if len(m.Ros) > 0 || m.All > 0 {
		out.Rosters = map[string]*pb.Roster{}
	}
	if m.All > 0 {
		o := &pb.Roster{Name: "all of them"}
		for i := 0; i < min(len(ids), m.All); i++ {
			o.Tickets = append(o.Tickets, &pb.Ticket{Id: ids[i]})
		}
		out.Rosters["all"] = o
	}
	for _, r := range m.Ros {
		o := &pb.Roster{Name: r.Nam, Extensions: extPB(r.Ext)}
		if r.Asg != "" {
			o.Assignment = &pb.Assignment{Connection: r.Asg}
		}
		for _, t := range r.T {
			k := &pb.Ticket{Id: refID(t, ids)}
			if t.Full {
				k.Attributes = &pb.Ticket_FilterableData{Tags: []string{"x", "y"}, DoubleArgs: map[string]float64{"d": 1.5}}
				k.ExpirationTime = tsAt(time.Unix(1, 5))
			}
			o.Tickets = append(o.Tickets, k)
		}
		out.Rosters[r.Key] = o
	}
	return out
}

func refID(t TRef, ids []string) string {
	if t.I >= 0 && len(ids) > 0 {
		return ids[t.I%len(ids)]
	}
	if len(ids) > 0 {
		for i := 0; i+1 < len(t.S); i++ {
			if t.S[i:i+2] == "%s" {
				return t.S[:i] + ids[0] + t.S[i+2:]
			}
		}
	}
	return t.S
}

// refs gives the case's tickets in the match.
func (m *MatchS) refs(n int) map[int]bool {
	out := map[int]bool{}
	for i := 0; i < min(n, m.All); i++ {
		out[i] = true
	}
	for _, r := range m.Ros {
		for _, t := range r.T {
			if t.I >= 0 && n > 0 {
				out[t.I%n] = true
			}
		}
	}
	return out
}

// NewFn starts a scripted function.
func (x *X) NewFn(name string, f *FnS, ids []string) *fnRun {
	r := &fnRun{f: f}
	switch f.Kind {
	case "grpc", "rest":
	case "unreachable":
		p := freePort() // not an ephemeral port, which another function might get
		r.spec = &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(p), Type: pb.MatchmakingFunctionSpec_GRPC}
		return r
	case "unimpl":
		ln, err := x.In.listen("127.0.0.1:0")
		if err != nil {
			panic(harnessErr{err})
		}
		s := grpc.NewServer()
		go s.Serve(ln)
		x.Defer(s.Stop)
		r.spec = &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(ln.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}
		return r
	case "blackhole": // accepts connections and says nothing
		ln, err := x.In.listen("127.0.0.1:0")
		if err != nil {
			panic(harnessErr{err})
		}
		x.Defer(func() { ln.Close() })
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				x.Defer(func() { c.Close() })
			}
		}()
		r.spec = &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(ln.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}
		return r
	default:
		r.spec = &pb.MatchmakingFunctionSpec{Name: name, Host: f.Kind, Type: pb.MatchmakingFunctionSpec_GRPC}
		return r
	}
	var m *Mmf
	at := "127.0.0.1:0"
	if f.Addr == "low" {
		at = x.lowAddr()
	}
	m = x.NewMmfAt(at, func(s pb.MatchMakingFunctionService_RunServer) error {
		r.mu.Lock()
		r.started++
		r.begun = time.Now()
		r.mu.Unlock()
		defer func() {
			r.mu.Lock()
			r.done++
			r.mu.Unlock()
		}()
		// when the function is told to stop
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			select {
			case <-s.Context().Done():
				r.mu.Lock()
				if r.ctxDone.IsZero() {
					r.ctxDone = time.Now()
				}
				r.mu.Unlock()
			case <-stop:
			}
		}()
		pause := func(ms int) bool {
			if ms <= 0 {
				return true
			}
			select {
			case <-time.After(time.Duration(ms) * time.Millisecond):
				return true
			case <-s.Context().Done():
				r.mu.Lock()
				r.early = true
				r.mu.Unlock()
				return false
			}
		}
		if !f.Early {
			if _, err := readChunks(s); err != nil && err != io.EOF {
				return err
			}
		}
		for _, ms := range f.M {
			if !pause(ms.Wait) {
				return s.Context().Err()
			}
			p := ms.pb(ids)
			if s.Send(&pb.StreamedMmfResponse{Match: p}) != nil {
				return s.Context().Err()
			}
			r.mu.Lock()
			r.sent = append(r.sent, p)
			r.at = append(r.at, time.Now())
			r.mu.Unlock()
		}
		if !pause(f.Wait) {
			return s.Context().Err()
		}
		switch f.End {
		case "error":
			return status.Error(codes.Code(f.Code), "planned failure")
		case "oversize":
			s.Send(&pb.StreamedMmfResponse{Match: (&MatchS{ID: "too big", Pad: 5 << 20}).pb(nil)})
			return nil
		case "drop":
			go m.srv.Stop()
			time.Sleep(50 * time.Millisecond)
		case "hang":
			<-s.Context().Done()
		case "deaf": // goes on although it was told to stop
			<-s.Context().Done()
			time.Sleep(1500 * time.Millisecond)
		}
		return nil
	})
	r.spec = m.Spec(name)
	switch f.Addr {
	case "joined":
		r.spec.Host, r.spec.Port = fmt.Sprintf("127.0.0.1:%d", m.Port), 0
	case "localhost":
		if as, err := net.LookupHost("localhost"); err == nil && slices.Contains(as, "127.0.0.1") {
			r.spec.Host = "localhost"
		}
	case "dns":
		r.spec.Host = "dns:///127.0.0.1"
	}
	if f.Kind == "rest" {
		r.spec.Type = pb.MatchmakingFunctionSpec_REST
	}
	return r
}

var otherIDs = []string{"", "abc", "1-1", "%s-1", " %s", "x", "0-0", "not-an-id", "1700000000000-77"}

func genTRef(t *rapid.T, n int, junk bool) TRef {
	if n == 0 || junk && rapid.IntRange(0, 6).Draw(t, "junk") == 6 {
		return TRef{I: -1, S: pick(t, otherIDs, "oid")}
	}
	return TRef{I: rapid.IntRange(0, n-1).Draw(t, "ti"), Full: rapid.IntRange(0, 3).Draw(t, "full") == 3}
}

func genMatch(t *rapid.T, n int) *MatchS {
	m := &MatchS{ID: pick(t, []string{"m1", "m2", "", "m3", "é\x01"}, "mid")}
	switch rapid.IntRange(0, 15).Draw(t, "mk") {
	case 0:
		return m // no rosters
	case 15:
		m.Nil = true
		return m
	case 7:
		m.Ext = genExt(t, 3)
	case 8:
		m.Pad = rapid.SampledFrom([]int{1000, 100000, 1000000, 3900000}).Draw(t, "mpad")
	}
	for i, nr := 0, rapid.IntRange(0, 3).Draw(t, "nr"); i < nr; i++ {
		r := &RosS{Key: []string{"red", "blue", ""}[i]}
		if rapid.Bool().Draw(t, "rn") {
			r.Nam = "roster"
		}
		if rapid.IntRange(0, 4).Draw(t, "ra") == 4 {
			r.Asg = "server:1"
			r.Ext = genExt(t, 1)
		}
		for j := rapid.IntRange(0, 5).Draw(t, "rt"); j > 0; j-- {
			r.T = append(r.T, genTRef(t, n, true))
		}
		m.Ros = append(m.Ros, r)
	}
	return m
}

func fmtMatch(m *pb.Match) string { return head(fmt.Sprintf("{%v}", m), 300) }
