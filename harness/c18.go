package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	api "open-match.dev/pkg/api/v2"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C18: the REST gateway against the gRPC interface.

type rpc18 struct {
	name, meth, path string
	req, resp        proto.Message
	stream           bool
}

// the documented bindings (proto/v2/api.yaml)
var rpcs18 = []rpc18{
	{"CreateTicket", "POST", "/v2/tickets", &pb.CreateTicketRequest{}, &pb.CreateTicketResponse{}, false},
	{"DeactivateTickets", "DELETE", "/v2/tickets:deactivate", &pb.DeactivateTicketsRequest{}, &pb.DeactivateTicketsResponse{}, false},
	{"ActivateTickets", "POST", "/v2/tickets:activate", &pb.ActivateTicketsRequest{}, &pb.ActivateTicketsResponse{}, false},
	{"InvokeMatchmakingFunctions", "POST", "/v2/matches:fetch", &pb.MmfRequest{}, &pb.StreamedMmfResponse{}, true},
	{"CreateAssignments", "POST", "/v2/assignments:create", &pb.CreateAssignmentsRequest{}, &pb.CreateAssignmentsResponse{}, false},
	{"WatchAssignments", "POST", "/v2/assignments:watch", &pb.WatchAssignmentsRequest{}, &pb.StreamedWatchAssignmentsResponse{}, true},
}

func rpcByName(n string) *rpc18 {
	for i := range rpcs18 {
		if rpcs18[i].name == n {
			return &rpcs18[i]
		}
	}
	panic(n)
}

var httpCodes = map[codes.Code]int{
	codes.Canceled: 499, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504,
	codes.NotFound: 404, codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.ResourceExhausted: 429,
	codes.FailedPrecondition: 400, codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501,
	codes.Internal: 500, codes.Unavailable: 503, codes.DataLoss: 500, codes.Unauthenticated: 401,
}

type Op18 struct {
	Rpc  string
	Req  []byte   `json:",omitempty"` // the request message
	Opt  int      `json:",omitempty"` // how it is written as JSON
	Mal  string   `json:",omitempty"` // malformed body sent instead
	Resp [][]byte `json:",omitempty"` // what the operation answers
	Code int      `json:",omitempty"`
	Msg  string   `json:",omitempty"`
	Det  []byte   `json:",omitempty"` // a detail (Any) of the error
	// against a real server:
	Refs  []TRef `json:",omitempty"`
	ExMS  int    `json:",omitempty"` // expiration relative to now
	Var   int    `json:",omitempty"`
	First bool   `json:",omitempty"` // gRPC before REST
	Pad   int    `json:",omitempty"`
	RPad  int    `json:",omitempty"` // bytes added to the request
	Slow  int    `json:",omitempty"` // ms: pause within a watch, or within sending the body
}

type Case18 struct {
	Mode int // 0 endpoint, 1 connection, 2 in-process server, 3 real server
	Dep  bool
	N    int // tickets
	Ops  []*Op18
}

// --- clean messages: such that JSON and binary denote the same ------------------------------

func genCleanStr(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "sk") {
	case 5:
		return rapid.StringN(0, 12, 40).Draw(t, "str")
	case 6:
		return pick(t, []string{"\x00", "é日本", "a\nb\t\"\\", "</script>&", "\u2028", "{\"a\":1}", "true", "null", "12", "\U0001F600"}, "odd")
	}
	return pick(t, []string{"", "a", "b", "mode", "127.0.0.1:7777", "1700000000000-0", "x y", "-"}, "s")
}

func genCleanTS(t *rapid.T) *timestamppb.Timestamp {
	s := rapid.SampledFrom([]int64{0, 1, -1, 1700000000, 4000000000, 253402300799, -62135596800}).Draw(t, "sec")
	n := rapid.SampledFrom([]int32{0, 1, 1000, 120000000, 123456789, 999999999}).Draw(t, "nano")
	return &timestamppb.Timestamp{Seconds: s, Nanos: n}
}

func genCleanAny(t *rapid.T) *anypb.Any {
	var m proto.Message
	switch rapid.IntRange(0, 6).Draw(t, "anyk") {
	case 0:
		m = wrapperspb.String(genCleanStr(t))
	case 1:
		m = wrapperspb.Int64(rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53}).Draw(t, "i64"))
	case 2:
		m = wrapperspb.Bytes(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "bytes"))
	case 3:
		m = wrapperspb.Double(rapid.SampledFrom([]float64{0, 1.5, -1e300, math.Inf(1), math.SmallestNonzeroFloat64, 0.1}).Draw(t, "dbl"))
	case 4:
		m = genCleanTS(t)
	case 5:
		m = &pb.Ticket{Id: genCleanStr(t), ExpirationTime: genCleanTS(t)}
	default:
		return &anypb.Any{}
	}
	a, err := anypb.New(m)
	if err != nil {
		panic(harnessErr{err})
	}
	return a
}

func genClean(t *rapid.T, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	val := func(fd protoreflect.FieldDescriptor, mk func() protoreflect.Value) protoreflect.Value {
		if md := fd.Message(); md != nil {
			switch md.FullName() {
			case "google.protobuf.Timestamp":
				return protoreflect.ValueOfMessage(genCleanTS(t).ProtoReflect())
			case "google.protobuf.Any":
				return protoreflect.ValueOfMessage(genCleanAny(t).ProtoReflect())
			}
			v := mk()
			genClean(t, v.Message(), depth-1)
			return v
		}
		switch fd.Kind() {
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(genCleanStr(t))
		case protoreflect.EnumKind:
			vs := fd.Enum().Values()
			return protoreflect.ValueOfEnum(vs.Get(rapid.IntRange(0, vs.Len()-1).Draw(t, "enum")).Number())
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(rapid.SampledFrom([]float64{0, 1, -1.5, 0.1, 1e300, -1e-300, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 123456789.125}).Draw(t, "dbl"))
		}
		return genScalar(t, fd)
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if rapid.IntRange(0, 3).Draw(t, "have") == 0 || fd.Message() != nil && depth <= 0 {
			continue
		}
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil && depth <= 0 {
				continue
			}
			mp := m.Mutable(fd).Map()
			for k := rapid.IntRange(0, 3).Draw(t, "nmap"); k > 0; k-- {
				mp.Set(val(fd.MapKey(), nil).MapKey(), val(fd.MapValue(), mp.NewValue))
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for k := rapid.IntRange(0, 3).Draw(t, "nlist"); k > 0; k-- {
				l.Append(val(fd, l.NewElement))
			}
		default:
			m.Set(fd, val(fd, func() protoreflect.Value { return m.NewField(fd) }))
		}
	}
}

func genCleanMsg(t *rapid.T, m proto.Message, depth int) proto.Message {
	n := m.ProtoReflect().New()
	genClean(t, n, depth)
	return n.Interface()
}

func toJSON18(m proto.Message, opt int) []byte {
	o := protojson.MarshalOptions{UseProtoNames: opt&1 != 0, EmitUnpopulated: opt&2 != 0, UseEnumNumbers: opt&4 != 0, Multiline: opt&8 != 0}
	b, err := o.Marshal(m)
	if err != nil {
		panic(harnessErr{fmt.Errorf("protojson: %w", err)})
	}
	return b
}

var malformed18 = []string{"{", "{\"", "[]", "5", "\"x\"", "{\"ticketIds\": 5}", "{\"ticket\": []}", "{\"profile\": \"a\"}", "nonsense", "{\"ticketIds\": [\"a\"", "{\"assignmentRoster\": 1.5}", "{\"ticketIds\":[\"a\"]]", "\x00"}

// malBody picks a body that is no JSON form of the request message.
func malBody(t *rapid.T, r *rpc18) string {
	for i := 0; i < 4; i++ {
		s := pick(t, malformed18, "mal")
		if badBody(r, s) {
			return s
		}
	}
	return "nonsense"
}

func badBody(r *rpc18, s string) bool {
	// the first JSON value of the body decides
	var raw json.RawMessage
	if json.NewDecoder(strings.NewReader(s)).Decode(&raw) != nil {
		return true
	}
	m := r.req.ProtoReflect().New().Interface()
	return protojson.UnmarshalOptions{DiscardUnknown: true}.Unmarshal(raw, m) != nil
}

func genCase18(t *rapid.T) any {
	c := &Case18{Mode: rapid.SampledFrom([]int{0, 3, 0, 0, 1, 2, 3, 0}).Draw(t, "mode"), Dep: rapid.Bool().Draw(t, "dep")}
	n := rapid.IntRange(1, 8).Draw(t, "nops")
	if c.Mode == 3 {
		c.N = rapid.IntRange(1, 12).Draw(t, "tickets")
	}
	for i := 0; i < n; i++ {
		r := &rpcs18[rapid.IntRange(0, len(rpcs18)-1).Draw(t, "rpc")]
		o := &Op18{Rpc: r.name, Opt: rapid.IntRange(0, 31).Draw(t, "opt")}
		c.Ops = append(c.Ops, o)
		if rapid.IntRange(0, 11).Draw(t, "mal") == 5 {
			o.Mal = malBody(t, r)
			continue
		}
		o.First = rapid.Bool().Draw(t, "first")
		o.Req = mustMarshal(genCleanMsg(t, r.req, 4))
		if rapid.IntRange(0, 15).Draw(t, "rpad") == 9 {
			o.RPad = rapid.SampledFrom([]int{5000, 70000, 800000, 1100000, 2200000, 3000000}).Draw(t, "rpadn")
		}
		if c.Mode == 3 {
			genReal18(t, c, r, o)
			continue
		}
		k := 1
		if r.stream {
			k = rapid.IntRange(0, 4).Draw(t, "nresp")
			if rapid.IntRange(0, 20).Draw(t, "many") == 11 {
				k = 60
			}
		}
		for j := 0; j < k; j++ {
			if j > 6 {
				o.Resp = append(o.Resp, o.Resp[j%6])
				continue
			}
			o.Resp = append(o.Resp, mustMarshal(genCleanMsg(t, r.resp, 3)))
		}
		if rapid.IntRange(0, 3).Draw(t, "err") == 2 {
			genErr18(t, o)
		}
	}
	return c
}

func genErr18(t *rapid.T, o *Op18) {
	o.Code = rapid.IntRange(1, 16).Draw(t, "code")
	o.Msg = genCleanStr(t)
	if !utf8.ValidString(o.Msg) || o.Code == 16 && strings.ContainsFunc(o.Msg, func(r rune) bool { return r < 32 || r > 126 }) {
		o.Msg = "x" // this code's message also goes into a header
	}
	if rapid.Bool().Draw(t, "det") {
		if a := genCleanAny(t); a.TypeUrl != "" {
			o.Det = mustMarshal(a)
		}
	}
}

func genReal18(t *rapid.T, c *Case18, r *rpc18, o *Op18) {
	if rapid.IntRange(0, 119).Draw(t, "slow") == 61 {
		o.Slow = rapid.SampledFrom([]int{6000, 300, 12000, 6000, 12000, 33000}).Draw(t, "slowms")
	} else if o.RPad == 0 && rapid.IntRange(0, 39).Draw(t, "huge") == 23 {
		o.RPad = 5000000 // more than a gRPC message may have
	}
	o.Var = rapid.IntRange(0, 6).Draw(t, "var")
	switch r.name {
	case "CreateTicket":
		o.ExMS = rapid.SampledFrom([]int{0, 60000, 300000, -10000, 100000000}).Draw(t, "ex")
	case "InvokeMatchmakingFunctions":
		k := rapid.IntRange(0, 4).Draw(t, "nresp")
		for j := 0; j < k; j++ {
			m := genCleanMsg(t, &pb.Match{}, 3).(*pb.Match)
			for _, ro := range m.GetRosters() {
				for _, tk := range ro.GetTickets() {
					tk.Id = "vhm" + tk.Id
				}
			}
			o.Resp = append(o.Resp, mustMarshal(m))
		}
		if rapid.IntRange(0, 3).Draw(t, "err") == 2 {
			genErr18(t, o)
		}
		if rapid.IntRange(0, 9).Draw(t, "pad") == 5 {
			o.Pad = rapid.SampledFrom([]int{100000, 3000000, 4000000}).Draw(t, "padn")
		}
	}
	for k := rapid.IntRange(0, 5).Draw(t, "nref"); k > 0; k-- {
		tr := TRef{I: rapid.IntRange(0, c.N-1).Draw(t, "ref")}
		if rapid.IntRange(0, 7).Draw(t, "badref") == 4 {
			tr = TRef{I: -1, S: genCleanStr(t)}
		}
		o.Refs = append(o.Refs, tr)
	}
	if rapid.IntRange(0, 30).Draw(t, "manyrefs") == 17 {
		for len(o.Refs) < 501 {
			o.Refs = append(o.Refs, TRef{I: 0})
		}
	}
}

// --- the scripted service -------------------------------------------------------------------

type fake18 struct {
	pb.UnimplementedOpenMatchServiceServer
	mu  sync.Mutex
	op  *Op18
	got []struct {
		rpc string
		m   proto.Message
	}
}

func (f *fake18) take(rpc string, m proto.Message) *Op18 {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.got = append(f.got, struct {
		rpc string
		m   proto.Message
	}{rpc, proto.Clone(m)})
	return f.op
}

func (o *Op18) err() error {
	if o.Code == 0 {
		return nil
	}
	s := &spb.Status{Code: int32(o.Code), Message: o.Msg}
	if o.Det != nil {
		a := &anypb.Any{}
		if err := proto.Unmarshal(o.Det, a); err == nil {
			s.Details = append(s.Details, a)
		}
	}
	return status.ErrorProto(s)
}

func unm18(b []byte, m proto.Message) {
	if err := proto.Unmarshal(b, m); err != nil {
		panic(harnessErr{err})
	}
}

func unary18[T proto.Message](f *fake18, rpc string, in proto.Message, out T) (T, error) {
	o := f.take(rpc, in)
	var none T
	if o.Rpc != rpc {
		return none, status.Error(codes.Unimplemented, "another operation was called")
	}
	if o.Code != 0 {
		return none, o.err()
	}
	unm18(o.Resp[0], out)
	return out, nil
}

func (f *fake18) CreateTicket(_ context.Context, in *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	return unary18(f, "CreateTicket", in, &pb.CreateTicketResponse{})
}
func (f *fake18) ActivateTickets(_ context.Context, in *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	return unary18(f, "ActivateTickets", in, &pb.ActivateTicketsResponse{})
}
func (f *fake18) DeactivateTickets(_ context.Context, in *pb.DeactivateTicketsRequest) (*pb.DeactivateTicketsResponse, error) {
	return unary18(f, "DeactivateTickets", in, &pb.DeactivateTicketsResponse{})
}
func (f *fake18) CreateAssignments(_ context.Context, in *pb.CreateAssignmentsRequest) (*pb.CreateAssignmentsResponse, error) {
	return unary18(f, "CreateAssignments", in, &pb.CreateAssignmentsResponse{})
}
func (f *fake18) InvokeMatchmakingFunctions(in *pb.MmfRequest, s pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	o := f.take("InvokeMatchmakingFunctions", in)
	if o.Rpc != "InvokeMatchmakingFunctions" {
		return status.Error(codes.Unimplemented, "another operation was called")
	}
	for _, b := range o.Resp {
		m := &pb.StreamedMmfResponse{}
		unm18(b, m)
		if err := s.Send(m); err != nil {
			return err
		}
	}
	return o.err()
}
func (f *fake18) WatchAssignments(in *pb.WatchAssignmentsRequest, s pb.OpenMatchService_WatchAssignmentsServer) error {
	o := f.take("WatchAssignments", in)
	if o.Rpc != "WatchAssignments" {
		return status.Error(codes.Unimplemented, "another operation was called")
	}
	for _, b := range o.Resp {
		m := &pb.StreamedWatchAssignmentsResponse{}
		unm18(b, m)
		if err := s.Send(m); err != nil {
			return err
		}
	}
	return o.err()
}

// padReq makes the request bigger.
func padReq(req proto.Message, n int) {
	if n == 0 {
		return
	}
	put := func(m *map[string]*anypb.Any) {
		if *m == nil {
			*m = map[string]*anypb.Any{}
		}
		(*m)["pad"] = pad18(n)
	}
	switch m := req.(type) {
	case *pb.CreateTicketRequest:
		if m.Ticket != nil {
			put(&m.Ticket.Extensions)
		}
	case *pb.CreateAssignmentsRequest:
		if m.AssignmentRoster.GetAssignment() != nil {
			put(&m.AssignmentRoster.Assignment.Extensions)
		}
	case *pb.MmfRequest:
		if m.Profile != nil {
			put(&m.Profile.Extensions)
		}
	case *pb.WatchAssignmentsRequest:
		m.TicketIds = append(m.TicketIds, strings.Repeat("x", n))
	}
}

// slowBody pauses in the middle of the body.
type slowBody struct {
	r  *bytes.Reader
	d  time.Duration
	at int
}

func (s *slowBody) Read(p []byte) (int, error) {
	if s.d > 0 && s.r.Len() <= s.at {
		time.Sleep(s.d)
		s.d = 0
	}
	if s.d > 0 && len(p) > s.r.Len()-s.at {
		p = p[:s.r.Len()-s.at]
	}
	return s.r.Read(p)
}

// --- REST client ----------------------------------------------------------------------------

type rest18 struct {
	http  int
	msgs  []proto.Message
	err   *spb.Status // error reported in the body
	raw   string
	extra string // what could not be understood
}

func doRest(base string, r *rpc18, body []byte, ctype bool, tmo time.Duration) (*rest18, error) {
	return doRestSlow(base, r, body, ctype, tmo, 0, nil)
}

// doRestSlow pauses while it sends the body, and reports the first byte of the response body.
func doRestSlow(base string, r *rpc18, body []byte, ctype bool, tmo, slow time.Duration, first func()) (*rest18, error) {
	tmo += slow
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, r.meth, base+r.path, &slowBody{bytes.NewReader(body), slow, len(body) / 2})
	if err != nil {
		panic(harnessErr{err})
	}
	req.ContentLength = int64(len(body))
	if ctype {
		req.Header.Set("Content-Type", "application/json")
	}
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	out := &rest18{http: resp.StatusCode}
	var b []byte
	if first != nil {
		one := make([]byte, 1)
		var n int
		if n, err = resp.Body.Read(one); n > 0 {
			first()
		}
		b = one[:n]
	}
	if err == nil {
		var rest []byte
		rest, err = io.ReadAll(resp.Body)
		b = append(b, rest...)
	} else if err == io.EOF {
		err = nil
	}
	out.raw = head(string(b), 600)
	if err != nil {
		return out, err
	}
	um := protojson.UnmarshalOptions{}
	stat := func(raw []byte) {
		s := &spb.Status{}
		if err := um.Unmarshal(raw, s); err != nil {
			out.extra = fmt.Sprintf("the error in the body is no status: %v", err)
			return
		}
		out.err = s
	}
	msg := func(raw []byte) {
		m := r.resp.ProtoReflect().New().Interface()
		if err := um.Unmarshal(raw, m); err != nil {
			out.extra = fmt.Sprintf("the response is no %s: %v", r.resp.ProtoReflect().Descriptor().Name(), err)
			return
		}
		out.msgs = append(out.msgs, m)
	}
	if !r.stream {
		if out.http == 200 {
			msg(b)
		} else {
			stat(b)
		}
		return out, nil
	}
	d := json.NewDecoder(bytes.NewReader(b))
	for out.extra == "" {
		var raw json.RawMessage
		err := d.Decode(&raw)
		if err == io.EOF {
			break
		}
		if err != nil {
			out.extra = "the response is no sequence of JSON values: " + err.Error()
			break
		}
		var o map[string]json.RawMessage
		json.Unmarshal(raw, &o)
		switch {
		case out.err != nil:
			out.extra = "something follows the error"
		case o["result"] != nil && len(o) == 1:
			msg(o["result"])
		case o["error"] != nil && len(o) == 1:
			stat(o["error"])
		case out.http != 200:
			stat(raw)
		default:
			out.extra = "neither result nor error: " + head(string(raw), 200)
		}
	}
	return out, nil
}

// judgeErr compares a reported error.
func (g *rest18) judgeErr(code codes.Code, early bool) string {
	if g.err == nil {
		return fmt.Sprintf("the operation fails with %v, but the REST response (HTTP %d) has no error: %s", code, g.http, g.raw)
	}
	if codes.Code(g.err.GetCode()) != code {
		return fmt.Sprintf("the operation fails with %v, but the REST response says %v", code, codes.Code(g.err.GetCode()))
	}
	if early && g.http != httpCodes[code] {
		return fmt.Sprintf("the operation fails with %v, but the REST response has HTTP status %d instead of %d", code, g.http, httpCodes[code])
	}
	return ""
}

func cut18(m any) string { return head(strings.ReplaceAll(fmt.Sprint(m), "  ", " "), 400) }

func run18(x *X, ci any) (res R) {
	cs := ci.(*Case18)
	if cs.Mode == 3 {
		return run18real(x, cs)
	}
	f := &fake18{}
	mux := runtime.NewServeMux()
	ctx, cancel := context.WithCancel(context.Background())
	x.Defer(cancel)
	if cs.Mode == 2 {
		if err := api.RegisterOpenMatchServiceHandlerServer(ctx, mux, f); err != nil {
			return bad("registering the handlers failed: %v", err)
		}
	} else {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(harnessErr{err})
		}
		srv := grpc.NewServer()
		pb.RegisterOpenMatchServiceServer(srv, f)
		go srv.Serve(ln)
		x.Defer(srv.Stop)
		opts := []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}
		if cs.Mode == 0 {
			err = api.RegisterOpenMatchServiceHandlerFromEndpoint(ctx, mux, ln.Addr().String(), opts)
		} else {
			conn, derr := grpc.Dial(ln.Addr().String(), opts...)
			if derr != nil {
				panic(harnessErr{derr})
			}
			x.Defer(func() { conn.Close() })
			err = api.RegisterOpenMatchServiceHandler(ctx, mux, conn)
		}
		if err != nil {
			return bad("registering the handlers failed: %v", err)
		}
	}
	hl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(harnessErr{err})
	}
	hs := &http.Server{Handler: mux}
	go hs.Serve(hl)
	x.Defer(func() { hs.Close() })
	base := "http://" + hl.Addr().String()
	for i, o := range cs.Ops {
		r := rpcByName(o.Rpc)
		f.mu.Lock()
		f.op, f.got = o, nil
		f.mu.Unlock()
		what := fmt.Sprintf("op %d (%s %s)", i, r.meth, r.path)
		req := r.req.ProtoReflect().New().Interface()
		body := []byte(o.Mal)
		if o.Mal == "" {
			unm18(o.Req, req)
			// (the in-process server answers streaming calls without reading the request)
			if o.RPad > 0 && !(cs.Mode == 2 && r.stream) {
				padReq(req, o.RPad)
			}
			body = toJSON18(req, o.Opt)
			if o.RPad > 0 {
				res.Labels = append(res.Labels, "big-request")
			}
		}
		g, err := doRest(base, r, body, o.Opt&16 == 0, x.T(20*time.Second))
		if err != nil {
			return live("%s: %v", what, err)
		}
		f.mu.Lock()
		got := f.got
		f.mu.Unlock()
		if cs.Mode == 2 && r.stream {
			// not offered by this kind of registration
			if len(got) != 0 {
				return bad("%s: an operation was called", what)
			}
			if s := g.judgeErr(codes.Unimplemented, true); s != "" {
				return bad("%s: %s", what, s)
			}
			continue
		}
		if o.Mal != "" {
			if len(got) != 0 {
				return bad("%s: the body %q is no %s, but %s was called with %s", what, o.Mal, r.req.ProtoReflect().Descriptor().Name(), got[0].rpc, cut18(got[0].m))
			}
			if s := g.judgeErr(codes.InvalidArgument, true); s != "" {
				return bad("%s, body %q: %s", what, o.Mal, s)
			}
			res.Labels = append(res.Labels, "malformed")
			continue
		}
		if len(got) != 1 || got[0].rpc != r.name {
			var names []string
			for _, q := range got {
				names = append(names, q.rpc)
			}
			return bad("%s with body %s led to calls of %v instead of %s: HTTP %d %s", what, head(string(body), 300), names, r.name, g.http, g.raw)
		}
		if !proto.Equal(got[0].m, req) {
			return bad("%s: %s received %s instead of %s", what, r.name, cut18(got[0].m), cut18(req))
		}
		if g.extra != "" {
			return bad("%s: %s: %s", what, g.extra, g.raw)
		}
		nexp := len(o.Resp)
		if !r.stream && o.Code != 0 {
			nexp = 0
		}
		if len(g.msgs) != nexp {
			return bad("%s: %d response messages instead of %d: HTTP %d %s", what, len(g.msgs), nexp, g.http, g.raw)
		}
		for k, m := range g.msgs {
			e := r.resp.ProtoReflect().New().Interface()
			unm18(o.Resp[k], e)
			if !proto.Equal(m, e) {
				return bad("%s: response message %d is %s instead of %s", what, k, cut18(m), cut18(e))
			}
		}
		if o.Code != 0 {
			if s := g.judgeErr(codes.Code(o.Code), nexp == 0); s != "" {
				return bad("%s: %s", what, s)
			}
			if g.err.GetMessage() != o.Msg {
				return bad("%s: the error message is %q instead of %q", what, g.err.GetMessage(), o.Msg)
			}
			if o.Det != nil {
				a := &anypb.Any{}
				unm18(o.Det, a)
				if len(g.err.GetDetails()) != 1 || !proto.Equal(g.err.GetDetails()[0], a) {
					return bad("%s: the error details are %v instead of %v", what, g.err.GetDetails(), a)
				}
			}
			res.Labels = append(res.Labels, "error")
		} else if g.err != nil || g.http != 200 {
			return bad("%s: the operation succeeds, but the REST response is an error: HTTP %d %s", what, g.http, g.raw)
		}
		if len(o.Req) > 0 || nexp > 0 {
			res.Nontriv = true
		}
		res.Labels = append(res.Labels, o.Rpc)
	}
	return res
}

// --- a real server --------------------------------------------------------------------------

func run18real(x *X, cs *Case18) (res R) {
	bin := "core-ws"
	if cs.Dep {
		bin = "core-dep"
	}
	env := baseEnv()
	c, rd, _, ids, rr := x.setupActive(env, bin, false, cs.N)
	if rr != nil {
		return *rr
	}
	res.Labels = append(res.Labels, bin)
	base := "http://127.0.0.1:58081"
	tmo := x.T(25 * time.Second)
	var fmu sync.Mutex
	var cur *Op18
	var seen [][]*pb.ChunkedMmfRunRequest
	mmf := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		ch, _ := readChunks(s)
		fmu.Lock()
		o := cur
		seen = append(seen, ch)
		fmu.Unlock()
		for i, b := range o.Resp {
			m := &pb.Match{}
			unm18(b, m)
			if i == 0 && o.Pad > 0 {
				m.Extensions = map[string]*anypb.Any{"pad": pad18(o.Pad)}
			}
			if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
				return err
			}
		}
		return o.err()
	})
	added := func(n0 int, key string) (out []string) {
		for _, e := range rd.LogCopy()[n0:] {
			if len(e.Fields) >= 2 && e.Fields[0] == key && !strings.HasPrefix(e.Fields[1], "vhm") {
				out = append(out, strings.Join(e.Fields, "\x00"))
			}
		}
		sort.Strings(out)
		return
	}
	watched := 0
	for i, o := range cs.Ops {
		r := rpcByName(o.Rpc)
		what := fmt.Sprintf("op %d (%s)", i, r.name)
		if o.Mal != "" {
			g, err := doRest(base, r, []byte(o.Mal), true, tmo)
			if err != nil {
				return live("%s: %v", what, err)
			}
			if s := g.judgeErr(codes.InvalidArgument, true); s != "" {
				return bad("%s, body %q: %s", what, o.Mal, s)
			}
			continue
		}
		req := r.req.ProtoReflect().New().Interface()
		unm18(o.Req, req)
		var tids []string
		for _, t := range o.Refs {
			tids = append(tids, refID(t, ids))
		}
		// fill in what only the run knows
		switch m := req.(type) {
		case *pb.CreateTicketRequest:
			if m.Ticket != nil {
				m.Ticket.ExpirationTime = nil
				if o.ExMS != 0 {
					m.Ticket.ExpirationTime = tsAt(time.Now().Add(time.Duration(o.ExMS) * time.Millisecond))
				}
			}
		case *pb.ActivateTicketsRequest:
			m.TicketIds = tids
		case *pb.DeactivateTicketsRequest:
			m.TicketIds = tids
		case *pb.CreateAssignmentsRequest:
			if m.AssignmentRoster != nil && o.Var > 0 {
				m.AssignmentRoster.Tickets = nil
				for _, id := range tids {
					m.AssignmentRoster.Tickets = append(m.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
				}
			}
		case *pb.MmfRequest:
			m.Mmfs = []*pb.MatchmakingFunctionSpec{mmf.Spec("f")}
			switch o.Var {
			case 5:
				m.Mmfs[0].Type = pb.MatchmakingFunctionSpec_REST
			case 6:
				m.Mmfs = nil
			}
			if m.Profile != nil {
				for _, p := range m.Profile.Pools {
					p.Participants = nil
				}
			}
			fmu.Lock()
			cur, seen = o, nil
			fmu.Unlock()
		case *pb.WatchAssignmentsRequest:
			if o.Var == 6 {
				m.TicketIds = nil
				break
			}
			rr, n := watch18(x, c, o, base, &watched, what)
			if rr.Bad != "" || rr.Skip != "" {
				return rr
			}
			if n > 0 {
				res.Nontriv = true
				res.Labels = append(res.Labels, "watch")
			}
			continue
		}
		if o.RPad > 0 && r.name != "WatchAssignments" {
			padReq(req, o.RPad)
			res.Labels = append(res.Labels, "big-request")
		}
		body := toJSON18(req, o.Opt)
		type outcome struct {
			msgs  []proto.Message
			code  codes.Code
			added []string
			ids   []string
			prof  string
		}
		key := map[string]string{"CreateTicket": "ticket", "ActivateTickets": "activate", "DeactivateTickets": "deactivate", "CreateAssignments": "assign"}[r.name]
		var G, H outcome
		var cerr *R
		nseen := 0
		finish := func(u *outcome, n0 int) {
			if key != "" {
				u.added = added(n0, key)
			}
			fmu.Lock()
			if r.name != "InvokeMatchmakingFunctions" {
				nseen = len(seen)
			}
			for _, chs := range seen[nseen:] {
				for _, ch := range chs {
					p := proto.Clone(ch.GetProfile()).(*pb.Profile)
					for _, q := range p.GetPools() {
						q.Participants = nil
					}
					u.prof += detBytes(p) + ";"
				}
			}
			nseen = len(seen)
			fmu.Unlock()
		}
		viaGRPC := func() {
			n0 := rd.LogLen()
			ctx, cancel := rpcCtx(x)
			defer cancel()
			var m proto.Message
			var err error
			switch q := req.(type) {
			case *pb.CreateTicketRequest:
				m, err = c.Client.CreateTicket(ctx, q)
			case *pb.ActivateTicketsRequest:
				m, err = c.Client.ActivateTickets(ctx, q)
			case *pb.DeactivateTicketsRequest:
				m, err = c.Client.DeactivateTickets(ctx, q)
			case *pb.CreateAssignmentsRequest:
				m, err = c.Client.CreateAssignments(ctx, q)
			case *pb.WatchAssignmentsRequest:
				var st pb.OpenMatchService_WatchAssignmentsClient
				if st, err = c.Client.WatchAssignments(ctx, q); err == nil {
					m = nil
					for err == nil {
						var e *pb.StreamedWatchAssignmentsResponse
						if e, err = st.Recv(); err == nil {
							G.msgs = append(G.msgs, e)
						}
					}
				}
			case *pb.MmfRequest:
				var st pb.OpenMatchService_InvokeMatchmakingFunctionsClient
				if st, err = c.Client.InvokeMatchmakingFunctions(ctx, q); err == nil {
					for err == nil {
						var e *pb.StreamedMmfResponse
						if e, err = st.Recv(); err == nil {
							G.msgs = append(G.msgs, e)
						}
					}
				}
			}
			if err == io.EOF {
				err = nil
			}
			if msg, dead := c.CrashedSoon(err); dead {
				b := bad("%s: %s", what, msg)
				cerr = &b
				return
			}
			if err == nil && !r.stream {
				G.msgs = append(G.msgs, m)
			}
			G.code = status.Code(err)
			finish(&G, n0)
		}
		viaREST := func() {
			n0 := rd.LogLen()
			g, err := doRestSlow(base, r, body, o.Opt&16 == 0, tmo, time.Duration(o.Slow)*time.Millisecond, nil)
			if err != nil {
				if msg, dead := c.CrashedSoon(status.Error(codes.Unavailable, "")); dead {
					b := bad("%s: %s", what, msg)
					cerr = &b
					return
				}
				b := live("%s over REST: %v", what, err)
				cerr = &b
				return
			}
			if g.extra != "" {
				b := bad("%s over REST: %s: %s", what, g.extra, g.raw)
				cerr = &b
				return
			}
			H.msgs = g.msgs
			if g.err != nil {
				H.code = codes.Code(g.err.GetCode())
				if s := g.judgeErr(H.code, len(g.msgs) == 0); s != "" {
					b := bad("%s over REST: %s", what, s)
					cerr = &b
					return
				}
			} else if g.http != 200 {
				b := bad("%s over REST: HTTP %d without an error: %s", what, g.http, g.raw)
				cerr = &b
				return
			}
			finish(&H, n0)
		}
		if o.First {
			viaGRPC()
			if cerr == nil {
				viaREST()
			}
		} else {
			viaREST()
			if cerr == nil {
				viaGRPC()
			}
		}
		if cerr != nil {
			return *cerr
		}
		if G.code != H.code {
			return bad("%s: over gRPC %v, over REST %v; request %s", what, G.code, H.code, cut18(req))
		}
		res.Nontriv = true
		res.Labels = append(res.Labels, r.name, "code:"+G.code.String())
		if len(G.msgs) != len(H.msgs) {
			return bad("%s: %d response messages over gRPC, %d over REST; request %s", what, len(G.msgs), len(H.msgs), cut18(req))
		}
		if r.name == "CreateTicket" {
			if G.code != 0 {
				if len(G.added)+len(H.added) > 0 {
					return bad("%s failed, but a ticket was stored", what)
				}
				continue
			}
			gt, s := stored18(rd, G.msgs[0].(*pb.CreateTicketResponse).GetTicketId())
			if s != "" {
				return bad("%s over gRPC: %s", what, s)
			}
			ht, s := stored18(rd, H.msgs[0].(*pb.CreateTicketResponse).GetTicketId())
			if s != "" {
				return bad("%s over REST: %s", what, s)
			}
			for _, p := range []struct{ a, b *timestamppb.Timestamp }{
				{gt.GetExpirationTime(), ht.GetExpirationTime()}, {gt.GetAttributes().GetCreationTime(), ht.GetAttributes().GetCreationTime()}} {
				if (p.a == nil) != (p.b == nil) {
					return bad("%s: times differ: %s over gRPC, %s over REST", what, cut18(gt), cut18(ht))
				}
				if p.a != nil && p.a.AsTime().Sub(p.b.AsTime()).Abs() > x.T(20*time.Second) {
					return bad("%s: times differ: %s over gRPC, %s over REST", what, cut18(gt), cut18(ht))
				}
			}
			gt.ExpirationTime, ht.ExpirationTime = nil, nil
			if gt.Attributes != nil && ht.Attributes != nil && req.(*pb.CreateTicketRequest).GetTicket().GetAttributes().GetCreationTime() == nil {
				gt.Attributes.CreationTime, ht.Attributes.CreationTime = nil, nil
			}
			if !proto.Equal(gt, ht) {
				return bad("%s: stored ticket %s over gRPC, %s over REST", what, cut18(gt), cut18(ht))
			}
			continue
		}
		if r.name == "InvokeMatchmakingFunctions" { // in any order
			for _, l := range [][]proto.Message{G.msgs, H.msgs} {
				sort.Slice(l, func(a, b int) bool { return detBytes(l[a]) < detBytes(l[b]) })
			}
		}
		for k := range G.msgs {
			if !proto.Equal(G.msgs[k], H.msgs[k]) {
				return bad("%s: response message %d is %s over gRPC, %s over REST", what, k, cut18(G.msgs[k]), cut18(H.msgs[k]))
			}
		}
		if strings.Join(G.added, "\x01") != strings.Join(H.added, "\x01") {
			if !(key == "assign" && eqAssign18(G.added, H.added)) {
				return bad("%s: stored %q over gRPC, %q over REST", what, head(fmt.Sprintf("%q", G.added), 300), head(fmt.Sprintf("%q", H.added), 300))
			}
		}
		if G.prof != H.prof {
			return bad("%s: the match function received %q over gRPC, %q over REST", what, head(G.prof, 400), head(H.prof, 400))
		}
	}
	return res
}

// eqAssign18: the same assignments up to the order of map entries.
func eqAssign18(a, b []string) bool {
	norm := func(l []string) (out []string) {
		for _, s := range l {
			f := strings.Split(s, "\x00")
			m := &pb.Assignment{}
			if len(f) < 3 || proto.Unmarshal([]byte(strings.Join(f[3:], "\x00")), m) != nil {
				out = append(out, s)
				continue
			}
			out = append(out, f[1]+"/"+detBytes(m))
		}
		sort.Strings(out)
		return
	}
	return strings.Join(norm(a), "\x01") == strings.Join(norm(b), "\x01")
}

func pad18(n int) *anypb.Any {
	a, err := anypb.New(wrapperspb.Bytes(bytes.Repeat([]byte{7}, n)))
	if err != nil {
		panic(harnessErr{err})
	}
	return a
}

func stored18(rd *FakeRedis, id string) (*pb.Ticket, string) {
	for _, e := range rd.LogCopy() {
		if e.ID() == id && len(e.Fields) == 2 && e.Fields[0] == "ticket" {
			t := &pb.Ticket{}
			if err := proto.Unmarshal([]byte(e.Fields[1]), t); err != nil {
				return nil, "the stored ticket is unreadable"
			}
			return t, ""
		}
	}
	return nil, fmt.Sprintf("no ticket was stored under the returned id %q", id)
}

// watch18 watches the same fresh tickets over both interfaces and assigns them over one of them.
func watch18(x *X, c *Core, o *Op18, base string, used *int, what string) (R, int) {
	n := 1 + o.Var
	want := map[string]string{}
	ms := time.Now().UnixMilli()
	var tids []string
	for k := 0; k < n; k++ {
		*used++
		tids = append(tids, fmt.Sprintf("%d-%d", ms, 100000+*used))
	}
	req := &pb.WatchAssignmentsRequest{TicketIds: tids}
	slow := time.Duration(o.Slow) * time.Millisecond
	tmo := x.T(20*time.Second) + slow
	type got struct {
		msgs []proto.Message
		err  error
		extr string
	}
	hc, gc := make(chan got, 1), make(chan got, 1)
	first := make(chan struct{})
	go func() {
		g, err := doRestSlow(base, rpcByName("WatchAssignments"), toJSON18(req, o.Opt), true, tmo, 0, func() { close(first) })
		if err != nil {
			hc <- got{err: err}
			return
		}
		if g.err != nil && g.extra == "" {
			g.extra = fmt.Sprintf("error %v", g.err)
		}
		hc <- got{g.msgs, nil, g.extra}
	}()
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), tmo)
		defer cancel()
		st, err := c.Client.WatchAssignments(ctx, req)
		var out got
		for err == nil {
			var m *pb.StreamedWatchAssignmentsResponse
			if m, err = st.Recv(); err == nil {
				out.msgs = append(out.msgs, m)
			}
		}
		if err != io.EOF {
			out.err = err
		}
		gc <- out
	}()
	if o.First { // assignments may also precede the watches
		time.Sleep(30 * time.Millisecond)
	}
	for k, id := range tids {
		if k == 1 && o.Opt&2 != 0 {
			// what is assigned arrives before the stream ends
			select {
			case <-first:
			case g := <-hc:
				hc <- g
			case <-time.After(tmo):
				return live("%s: watch over REST: one of %d tickets was assigned, but nothing arrives", what, n), 0
			}
		}
		if k == n-1 && slow > 0 {
			time.Sleep(slow)
		}
		a := &pb.Assignment{Connection: fmt.Sprintf("c%d", k)}
		if k%2 == 1 {
			a.Extensions = map[string]*anypb.Any{"é": pad18(3)}
		}
		want[id] = detBytes(a)
		ros := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: a, Tickets: []*pb.Ticket{{Id: id}}}}
		if o.Opt&1 == 0 {
			g, err := doRest(base, rpcByName("CreateAssignments"), toJSON18(ros, o.Opt), true, tmo)
			if err != nil {
				return live("%s: CreateAssignments: %v", what, err), 0
			}
			if g.http != 200 {
				return bad("%s: CreateAssignments over REST: HTTP %d %s", what, g.http, g.raw), 0
			}
		} else {
			ctx, cancel := rpcCtx(x)
			_, err := c.Client.CreateAssignments(ctx, ros)
			cancel()
			if err != nil {
				return live("%s: CreateAssignments: %v", what, err), 0
			}
		}
	}
	for name, ch := range map[string]chan got{"REST": hc, "gRPC": gc} {
		g := <-ch
		if m, d := c.Crashed(); d {
			return bad("%s", m), 0
		}
		if g.err != nil {
			return live("%s: watch over %s with %d of %d messages: %v", what, name, len(g.msgs), n, g.err), 0
		}
		if g.extr != "" {
			return bad("%s: watch over %s: %s", what, name, g.extr), 0
		}
		cnt := map[string]int{}
		for _, m := range g.msgs {
			s := m.(*pb.StreamedWatchAssignmentsResponse)
			cnt[s.GetId()]++
			if detBytes(s.GetAssignment()) != want[s.GetId()] {
				return bad("%s: watch over %s received %s", what, name, cut18(s)), 0
			}
		}
		for _, id := range tids {
			if cnt[id] != 1 {
				return bad("%s: watch over %s received %d messages for ticket %s (of %d messages for %d tickets)", what, name, cnt[id], id, len(g.msgs), n), 0
			}
		}
	}
	return R{}, n
}

func init() {
	register(&Check{
		ID:       "C18",
		Rule:     "A case is 1-8 REST requests with random messages written as JSON in varied styles (or malformed bodies), either to the generated gateway in front of a scripted service (registered by endpoint, by connection or in-process; random responses, streams, errors with details), or to a real server whose answers and stored effects (also of requests of several MB and of slow ones) are compared with those of the same call over gRPC; half of the shards use the API packages bundled with the core, half the shared ones, against servers built with either. Non-trivial: a well-formed request reached an operation.",
		Quick:    2400,
		Thorough: 60000,
		MaxSh:    16,
		Alt:      true,
		New:      func() any { return &Case18{} },
		Gen:      genCase18,
		Run:      run18,
	})
}
