package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C16: nothing crashes the server.

// rawCodec passes messages as bytes.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v any) error {
	*(v.(*[]byte)) = append([]byte(nil), b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

type Act16 struct {
	Op    string // rpc, rest, entry, invoke
	RPC   int
	Raw   []byte   // rpc: encoded request; rest: body
	Meth  string   // rest
	Path  string   // rest
	Flds  [][]byte // entry
	Vic   int      // entry: field that is replaced by a ticket's id (0: none)
	Cut   int      // rpc, rest, invoke: ms after which the caller goes away; 0: stays
	Mmf   *Raw16   // invoke
	Specs []int    // invoke: other specs
	Fan   int      `json:",omitempty"` // invoke: the function under that many further addresses
}

// Raw16 is what a match function answers.
type Raw16 struct {
	Msgs [][]byte
	End  string // "", error, drop, early
	Code int
	Vic  bool // also a match with a victim's id
}

type Case16 struct {
	Bin  string
	Mem  bool
	Wait bool
	N    int
	Grps [][]*Act16
}

var rpcs16 = []struct {
	name   string
	req    proto.Message
	stream bool
}{
	{"CreateTicket", &pb.CreateTicketRequest{}, false},
	{"ActivateTickets", &pb.ActivateTicketsRequest{}, false},
	{"DeactivateTickets", &pb.DeactivateTicketsRequest{}, false},
	{"CreateAssignments", &pb.CreateAssignmentsRequest{}, false},
	{"InvokeMatchmakingFunctions", &pb.MmfRequest{}, true},
	{"WatchAssignments", &pb.WatchAssignmentsRequest{}, true},
}

var restPaths = []struct{ m, p string }{
	{"POST", "/v2/tickets"}, {"POST", "/v2/tickets:activate"}, {"DELETE", "/v2/tickets:deactivate"},
	{"POST", "/v2/assignments:create"}, {"POST", "/v2/matches:fetch"}, {"POST", "/v2/assignments:watch"},
}

var strs16 = []string{"", "a", "victim", "1-1", "1700000000000-0", "99999999999999999999-0", "9223372036854775807-1", "0-0", "-", "a-b", "\x00", "é日本", "127.0.0.1", "unix:/nonexistent", "::", "%s%d%n", "type.googleapis.com/openmatch.Ticket"}

func genStr16(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "sk") {
	case 8:
		return rapid.StringN(0, 20, 60).Draw(t, "str")
	case 9:
		return string(bytes.Repeat([]byte("x"), rapid.SampledFrom([]int{100, 70000}).Draw(t, "long")))
	}
	return pick(t, strs16, "s16")
}

// genMsg fills a message at random.
func genMsg(t *rapid.T, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if rapid.IntRange(0, 4).Draw(t, "have") == 0 {
			continue
		}
		if fd.Message() != nil && depth <= 0 && !fd.IsMap() {
			continue
		}
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil && depth <= 0 {
				continue
			}
			mp := m.Mutable(fd).Map()
			for k := rapid.IntRange(0, 3).Draw(t, "nmap"); k > 0; k-- {
				key := genScalar(t, fd.MapKey()).MapKey()
				if fd.MapValue().Message() != nil {
					v := mp.NewValue()
					if rapid.IntRange(0, 4).Draw(t, "mv") > 0 {
						genMsg(t, v.Message(), depth-1)
					}
					mp.Set(key, v)
				} else {
					mp.Set(key, genScalar(t, fd.MapValue()))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			n := rapid.IntRange(0, 4).Draw(t, "nlist")
			if rapid.IntRange(0, 40).Draw(t, "biglist") == 20 {
				n = 600
			}
			for k := 0; k < n; k++ {
				if fd.Message() != nil {
					if k > 8 {
						l.Append(l.Get(0))
						continue
					}
					v := l.NewElement()
					if rapid.IntRange(0, 4).Draw(t, "lv") > 0 {
						genMsg(t, v.Message(), depth-1)
					}
					l.Append(v)
				} else if k > 8 {
					l.Append(l.Get(0))
				} else {
					l.Append(genScalar(t, fd))
				}
			}
		case fd.Message() != nil:
			genMsg(t, m.Mutable(fd).Message(), depth-1)
		default:
			m.Set(fd, genScalar(t, fd))
		}
	}
}

func genScalar(t *rapid.T, fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(genStr16(t))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(genF().Draw(t, "dbl")))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(genF().Draw(t, "flt")))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, "bool"))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(rapid.SampledFrom([]int32{0, 1, 2, 3, 4, -1, 77, math.MaxInt32}).Draw(t, "enum")))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(rapid.SampledFrom([]int32{0, 1, -1, 80, 65535, 65536, math.MaxInt32, math.MinInt32, 999999999, 1000000000}).Draw(t, "i32"))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(rapid.Uint32().Draw(t, "u32"))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(rapid.Uint64().Draw(t, "u64"))
	default:
		return protoreflect.ValueOfInt64(rapid.SampledFrom([]int64{0, 1, -1, 1700000000, 4000000000, math.MaxInt64, math.MinInt64, 253402300799, 253402300800, -62135596801}).Draw(t, "i64"))
	}
}

func genRaw(t *rapid.T, m proto.Message, depth int) ([]byte, proto.Message) {
	n := m.ProtoReflect().New()
	genMsg(t, n, depth)
	b, err := proto.Marshal(n.Interface())
	if err != nil {
		b = nil
	}
	return b, n.Interface()
}

func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := rapid.IntRange(1, 3).Draw(t, "nmut"); k > 0; k-- {
		switch rapid.IntRange(0, 3).Draw(t, "mut") {
		case 0:
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, "mp")] = rapid.Byte().Draw(t, "mb")
			}
		case 1:
			if len(b) > 0 {
				b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			}
		case 2:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "app")...)
		case 3:
			i := rapid.IntRange(0, len(b)).Draw(t, "ip")
			b = append(b[:i:i], append([]byte{rapid.Byte().Draw(t, "ib")}, b[i:]...)...)
		}
	}
	return b
}

func genAct16(t *rapid.T, c *Case16) *Act16 {
	a := &Act16{}
	k := rapid.IntRange(0, 9).Draw(t, "ak")
	if c.Mem && (k == 2 || k == 3 || k == 4) {
		k = 5
	}
	if rapid.IntRange(0, 5).Draw(t, "hascut") == 5 {
		a.Cut = rapid.IntRange(1, 60).Draw(t, "cut")
	}
	switch k {
	case 0, 1:
		a.Op = "rpc"
		a.RPC = rapid.IntRange(0, len(rpcs16)-1).Draw(t, "rpc")
		a.Raw, _ = genRaw(t, rpcs16[a.RPC].req, 4)
		if rapid.IntRange(0, 7).Draw(t, "mutq") == 7 {
			a.Raw = mutate(t, a.Raw)
		}
	case 2, 3, 4:
		a.Op = "entry"
		n := rapid.SampledFrom([]int{2, 4, 1, 2, 4, 3, 5, 6}).Draw(t, "nf")
		for i := 0; i < n; i++ {
			var f []byte
			switch {
			case i == 0 && rapid.IntRange(0, 9).Draw(t, "kf") < 8:
				f = []byte(pick(t, []string{"ticket", "activate", "deactivate", "assign"}, "kind"))
			case rapid.IntRange(0, 3).Draw(t, "pf") == 0 && i > 0:
				var m proto.Message = &pb.Ticket{}
				if rapid.Bool().Draw(t, "asg") {
					m = &pb.Assignment{}
				}
				f, _ = genRaw(t, m, 3)
				if rapid.Bool().Draw(t, "mutf") {
					f = mutate(t, f)
				}
			case rapid.IntRange(0, 3).Draw(t, "bf") == 0:
				f = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "fb")
			case i == 2 && rapid.Bool().Draw(t, "af"):
				f = []byte("assignment")
			default:
				f = []byte(pick(t, append([]string{"ticket", "activate", "assign", "unknown", "TICKET"}, strs16...), "fs"))
			}
			a.Flds = append(a.Flds, f)
		}
		if n > 1 && rapid.Bool().Draw(t, "vic") {
			a.Vic = 1
		}
	case 5, 6, 7:
		a.Op = "invoke"
		a.Mmf = &Raw16{}
		for i := rapid.IntRange(0, 4).Draw(t, "nm"); i > 0; i-- {
			b, _ := genRaw(t, &pb.StreamedMmfResponse{}, 5)
			if rapid.IntRange(0, 9).Draw(t, "mutm") == 9 {
				b = mutate(t, b)
			}
			a.Mmf.Msgs = append(a.Mmf.Msgs, b)
		}
		a.Mmf.End = pick(t, []string{"", "error", "drop", "early", ""}, "end")
		a.Mmf.Code = rapid.IntRange(0, 20).Draw(t, "code")
		a.Mmf.Vic = rapid.Bool().Draw(t, "mvic")
		b, _ := genRaw(t, &pb.Profile{}, 3)
		a.Raw = b
		a.Specs = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 2).Draw(t, "specs")
		if rapid.IntRange(0, 19).Draw(t, "fan") == 11 {
			a.Fan = rapid.SampledFrom([]int{8, 24, 60}).Draw(t, "nfan")
		}
	default:
		a.Op = "rest"
		i := rapid.IntRange(0, len(restPaths)-1).Draw(t, "path")
		a.Meth, a.Path = restPaths[i].m, restPaths[i].p
		ri := []int{0, 1, 2, 3, 4, 5}[i]
		_, m := genRaw(t, rpcs16[ri].req, 4)
		a.Raw, _ = protojson.Marshal(m)
		switch rapid.IntRange(0, 7).Draw(t, "rk") {
		case 5:
			a.Raw = mutate(t, a.Raw)
		case 6:
			a.Raw = []byte(pick(t, []string{"", "null", "[]", "{", "1", "\"x\"", "{\"ticket\":null}", "{\"ticket\":{\"attributes\":{\"creationTime\":\"9999-99-99\"}}}", "{\"ticketIds\":[null]}", "{\"ticket\":{\"attributes\":{\"doubleArgs\":{\"a\":\"NaN\",\"b\":1e999}}}}"}, "lit"))
		case 7:
			a.Meth = pick(t, []string{"GET", "PUT", "PATCH", "OPTIONS", "HEAD", "POST", "DELETE"}, "meth")
			a.Path = pick(t, []string{"/", "/v2/tickets/", "/v2/tickets:", "/v2/tickets:activate:x", "/v2//tickets", "/v2/tickets?x=%zz", "/v2/matches:fetch?profile.name=x", "/metrics"}, "ppath")
		}
	}
	return a
}

func genCase16(t *rapid.T) any {
	c := &Case16{Bin: pick(t, bins, "bin"), Mem: rapid.IntRange(0, 3).Draw(t, "mem") == 3, Wait: rapid.Bool().Draw(t, "wait")}
	c.N = rapid.IntRange(1, 6).Draw(t, "n")
	for g := rapid.IntRange(1, 8).Draw(t, "ng"); g > 0; g-- {
		var grp []*Act16
		for k := rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "par"); k > 0; k-- {
			grp = append(grp, genAct16(t, c))
		}
		c.Grps = append(c.Grps, grp)
	}
	if rapid.IntRange(0, 39).Draw(t, "fans") == 23 { // many functions at the same time
		var grp []*Act16
		for k := rapid.IntRange(2, 8).Draw(t, "nfans"); k > 0; k-- {
			grp = append(grp, &Act16{Op: "invoke", Mmf: &Raw16{}, Fan: rapid.SampledFrom([]int{60, 24, 120}).Draw(t, "nfan")})
		}
		c.Grps = append(c.Grps, grp)
	}
	return c
}

func (x *X) rawMmf(r *Raw16, victim string) *pb.MatchmakingFunctionSpec {
	ln, err := x.In.listen("0.0.0.0:0") // every 127.x.y.z leads to it
	if err != nil {
		panic(harnessErr{err})
	}
	var srv *grpc.Server
	srv = grpc.NewServer(grpc.ForceServerCodec(rawCodec{}), grpc.UnknownServiceHandler(func(_ any, s grpc.ServerStream) error {
		if r.End != "early" {
			for {
				var b []byte
				if s.RecvMsg(&b) != nil {
					break
				}
			}
		}
		for _, m := range r.Msgs {
			if s.SendMsg(&m) != nil {
				return nil
			}
		}
		if r.Vic {
			m := mustMarshal(&pb.StreamedMmfResponse{Match: &pb.Match{Rosters: map[string]*pb.Roster{"": {Tickets: []*pb.Ticket{{Id: victim}, {}}}}}})
			if s.SendMsg(&m) != nil {
				return nil
			}
		}
		switch r.End {
		case "error":
			return status.Error(codes.Code(r.Code), "planned")
		case "drop":
			go srv.Stop()
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}))
	go srv.Serve(ln)
	x.Defer(srv.Stop)
	return &pb.MatchmakingFunctionSpec{Name: "raw", Host: "127.0.0.1", Port: int32(ln.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}
}

func run16(x *X, ci any) (res R) {
	cs := ci.(*Case16)
	env := baseEnv()
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(cs.Wait)
	env["OM_MMF_TIMEOUT_SECS"] = "2"
	env["OM_MAX_STATE_UPDATES_PER_CALL"] = "500"
	c, rd, _, ids, rr := x.setupActive(env, cs.Bin, cs.Mem, cs.N*2)
	if rr != nil {
		return *rr
	}
	victims, control := ids[:cs.N], ids[cs.N:]
	raw, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", c.Port), c.dialer(), grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithDefaultCallOptions(grpc.ForceCodec(rawCodec{})))
	if err != nil {
		return R{Skip: err.Error()}
	}
	defer raw.Close()
	n := map[string]int{}
	ok := 0
	var mu sync.Mutex
	for gi, grp := range cs.Grps {
		var wg sync.WaitGroup
		for ai, a := range grp {
			n[a.Op]++
			vic := victims[(gi+ai)%len(victims)]
			var body []byte
			rpc := 0
			switch a.Op {
			case "rpc":
				rpc, body = a.RPC, a.Raw
			case "invoke":
				rpc = 4
				p := &pb.Profile{}
				proto.Unmarshal(a.Raw, p)
				req := &pb.MmfRequest{Profile: p, Mmfs: []*pb.MatchmakingFunctionSpec{x.rawMmf(a.Mmf, vic)}}
				for _, s := range a.Specs {
					switch s {
					case 0:
						req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{})
					case 1:
						req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Host: "127.0.0.1", Port: -5, Type: 1})
					case 2:
						req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Host: "127.0.0.1", Port: 70000, Type: 1})
					case 3:
						req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Host: "::bad::%", Port: 1, Type: 7})
					case 4:
						req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Type: 1})
					case 5:
						req.Mmfs = append(req.Mmfs, req.Mmfs[0])
					}
				}
				for i := 0; i < a.Fan; i++ {
					sp := proto.Clone(req.Mmfs[0]).(*pb.MatchmakingFunctionSpec)
					sp.Host = fmt.Sprintf("127.%d.%d.%d", gi+1, ai+1, i+1)
					req.Mmfs = append(req.Mmfs, sp)
				}
				body = mustMarshal(req)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				to := x.T(2500 * time.Millisecond)
				if a.Op == "invoke" {
					to = x.T(6 * time.Second)
				}
				if a.Op == "rpc" && rpc == 5 || a.Op == "rest" && a.Path == "/v2/assignments:watch" {
					to = 150 * time.Millisecond // would wait for assignments
				}
				if a.Cut > 0 {
					to = time.Duration(a.Cut) * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), to)
				defer cancel()
				var err error
				switch a.Op {
				case "entry":
					f := make([]string, len(a.Flds))
					for i, b := range a.Flds {
						f[i] = string(b)
					}
					if a.Vic > 0 && a.Vic < len(f) {
						f[a.Vic] = vic
					}
					rd.Add(f...)
				case "rpc", "invoke":
					m := "/" + pb.OpenMatchService_ServiceDesc.ServiceName + "/" + rpcs16[rpc].name
					if !rpcs16[rpc].stream {
						var out []byte
						err = raw.Invoke(ctx, m, &body, &out)
					} else {
						var st grpc.ClientStream
						st, err = raw.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, m)
						if err == nil {
							if err = st.SendMsg(&body); err == nil {
								st.CloseSend()
								for err == nil {
									var out []byte
									err = st.RecvMsg(&out)
								}
								if err == io.EOF {
									err = nil
								}
							}
						}
					}
				case "rest":
					var rq *http.Request
					rq, err = http.NewRequestWithContext(ctx, a.Meth, "http://127.0.0.1:58081"+a.Path, bytes.NewReader(a.Raw))
					if err != nil {
						return
					}
					rq.Header.Set("Content-Type", "application/json")
					var rs *http.Response
					if rs, err = httpClient.Do(rq); err == nil {
						io.Copy(io.Discard, rs.Body)
						rs.Body.Close()
						if rs.StatusCode != 200 {
							err = fmt.Errorf("%d", rs.StatusCode)
						}
					}
				}
				if err == nil {
					mu.Lock()
					ok++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if m, d := c.Crashed(); d {
			return bad("group %d (%s): %s", gi, grp[0].Op, m)
		}
	}
	// it still works, and the other tickets are as they were
	if err := c.sync1(x.T(30 * time.Second)); err != nil {
		return badErr("after everything", err)
	}
	got, err := c.Query(map[string]*pb.Pool{"all": {}})
	if err != nil {
		return badErr("query after everything", err)
	}
	have := map[string]int{}
	for _, t := range got["all"] {
		have[t.GetId()]++
	}
	for i, id := range control {
		if have[id] != 1 {
			return bad("ticket %s (%d), which nothing referred to, is offered %d times instead of once", id, i, have[id])
		}
	}
	w := &World{x: x, c: c}
	id, r := w.create(&TicketS{Tags: []string{"last"}})
	if r != nil {
		return *r
	}
	ctx, cancel := rpcCtx(x)
	defer cancel()
	if _, err := c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id, control[0]}}); err != nil {
		return *w.callErr("ActivateTickets after everything", err)
	}
	if _, err := c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{control[0]}}); err != nil {
		return *w.callErr("DeactivateTickets after everything", err)
	}
	if _, err := c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "x"}, Tickets: []*pb.Ticket{{Id: id}}}}); err != nil {
		return *w.callErr("CreateAssignments after everything", err)
	}
	if err := c.sync1(x.T(30 * time.Second)); err != nil {
		return badErr("after everything", err)
	}
	st, err := c.Client.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: []string{id}})
	if err == nil {
		_, err = st.Recv()
	}
	if err != nil {
		return *w.callErr("WatchAssignments after everything", err)
	}
	if got, err = c.Query(map[string]*pb.Pool{"last": {TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "last"}}}, "t": {TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "a"}}}}); err != nil {
		return badErr("query after everything", err)
	}
	if g := c.ids(got["last"]); !eqStrs(g, []string{id}) {
		return bad("a ticket created and activated after everything: pool contains %v instead of %s", g, id)
	}
	for _, t := range got["t"] {
		if t.GetId() == control[0] {
			return bad("ticket %s was deactivated after everything but is still offered", control[0])
		}
	}
	res.Nontriv = true
	for k := range n {
		res.Labels = append(res.Labels, k)
	}
	if ok > 0 {
		res.Labels = append(res.Labels, "some-call-succeeded")
	}
	return res
}

func init() {
	register(&Check{
		ID:       "C16",
		Rule:     "A case is 1-8 groups of concurrent hostile inputs: RPC requests and match function responses filled at random by reflection over the message types (absent and empty parts, extreme numbers, odd enums and timestamps, also mutated encodings), REST requests with such bodies, broken JSON and odd paths, entries in the replication stream with unknown kinds, missing, surplus and undecodable fields, functions that fail or hang up anywhere, callers that go away after any time. Afterwards the server must be alive, every operation must work, and tickets not referred to must be unchanged. Every case is non-trivial (several inputs are handled and the state is compared).",
		Quick:    3600,
		Thorough: 40000,
		New:      func() any { return &Case16{} },
		Gen:      genCase16,
		Run:      run16,
	})
}
