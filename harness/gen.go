package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

var httpClient = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func mustMarshal(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(harnessErr{err})
	}
	return b
}

func tsNow() *timestamppb.Timestamp           { return timestamppb.Now() }
func tsAt(t time.Time) *timestamppb.Timestamp { return timestamppb.New(t) }
func detBytes(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(harnessErr{err})
	}
	return string(b)
}

// F64 is a float64 that survives JSON whatever its value.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64) + "/" + strconv.FormatUint(math.Float64bits(float64(f)), 16))
}

func (f *F64) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	for i := range s {
		if s[i] == '/' {
			u, err := strconv.ParseUint(s[i+1:], 16, 64)
			*f = F64(math.Float64frombits(u))
			return err
		}
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F64(v)
	return err
}

type TS struct {
	S int64
	N int32
}

func (t *TS) PB() *timestamppb.Timestamp {
	if t == nil {
		return nil
	}
	return &timestamppb.Timestamp{Seconds: t.S, Nanos: t.N}
}

func (t *TS) Time() time.Time { return time.Unix(t.S, int64(t.N)).UTC() }

type AnyS struct {
	Type string
	Val  []byte
}

type TicketS struct {
	NoAttr bool              `json:",omitempty"`
	Tags   []string          `json:",omitempty"`
	Str    map[string]string `json:",omitempty"`
	Dbl    map[string]F64    `json:",omitempty"`
	Cr     *TS               `json:",omitempty"`
	Ex     *TS               `json:",omitempty"`
	Ext    map[string]AnyS   `json:",omitempty"`
	ID     string            `json:",omitempty"`
	Pad    int               `json:",omitempty"` // additional payload bytes in an extension
}

func extPB(e map[string]AnyS) map[string]*anypb.Any {
	if len(e) == 0 {
		return nil
	}
	out := map[string]*anypb.Any{}
	for k, v := range e {
		out[k] = &anypb.Any{TypeUrl: v.Type, Value: v.Val}
	}
	return out
}

func (t *TicketS) PB() *pb.Ticket {
	out := &pb.Ticket{Id: t.ID, ExpirationTime: t.Ex.PB(), Extensions: extPB(t.Ext)}
	if t.Pad > 0 {
		if out.Extensions == nil {
			out.Extensions = map[string]*anypb.Any{}
		}
		out.Extensions["pad"] = &anypb.Any{TypeUrl: "pad", Value: make([]byte, t.Pad)}
	}
	if !t.NoAttr {
		a := &pb.Ticket_FilterableData{Tags: t.Tags, StringArgs: t.Str, CreationTime: t.Cr.PB()}
		if len(t.Dbl) > 0 {
			a.DoubleArgs = map[string]float64{}
			for k, v := range t.Dbl {
				a.DoubleArgs[k] = float64(v)
			}
		}
		out.Attributes = a
	}
	return out
}

type DblF struct {
	Arg    string
	Min    F64
	Max    F64
	Bounds int32
}
type StrF struct{ Arg, Val string }
type CrF struct {
	Start, End *TS
	Bounds     int32
}
type PoolS struct {
	Name string          `json:",omitempty"`
	Tags []string        `json:",omitempty"`
	Strs []StrF          `json:",omitempty"`
	Dbls []DblF          `json:",omitempty"`
	Cr   *CrF            `json:",omitempty"`
	Ext  map[string]AnyS `json:",omitempty"`
}

func (p *PoolS) PB() *pb.Pool {
	out := &pb.Pool{Name: p.Name, Extensions: extPB(p.Ext)}
	for _, t := range p.Tags {
		out.TagPresentFilters = append(out.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: t})
	}
	for _, s := range p.Strs {
		out.StringEqualsFilters = append(out.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: s.Arg, Value: s.Val})
	}
	for _, d := range p.Dbls {
		out.DoubleRangeFilters = append(out.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: d.Arg, Minimum: float64(d.Min), Maximum: float64(d.Max), Bounds: pb.Pool_FilterBounds(d.Bounds)})
	}
	if p.Cr != nil {
		out.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: p.Cr.Start.PB(), End: p.Cr.End.PB(), Bounds: pb.Pool_FilterBounds(p.Cr.Bounds)}
	}
	return out
}

// --- the reference model of pool membership -------------------------------------------------

func inRange(v, min, max float64, b int32) bool {
	lo := v >= min
	if b == 1 || b == 3 {
		lo = v > min
	}
	hi := v <= max
	if b == 2 || b == 3 {
		hi = v < max
	}
	return lo && hi
}

// matchNoTime: all filters but the creation-time one.
func (p *PoolS) matchNoTime(t *TicketS) bool {
	for _, want := range p.Tags {
		ok := false
		if !t.NoAttr {
			for _, x := range t.Tags {
				if x == want {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	for _, f := range p.Strs {
		v, ok := t.Str[f.Arg]
		if t.NoAttr || !ok || v != f.Val {
			return false
		}
	}
	for _, f := range p.Dbls {
		v, ok := t.Dbl[f.Arg]
		if t.NoAttr || !ok || !inRange(float64(v), float64(f.Min), float64(f.Max), f.Bounds) {
			return false
		}
	}
	return true
}

func (p *PoolS) validTime() bool {
	if p.Cr == nil {
		return true
	}
	for _, t := range []*TS{p.Cr.Start, p.Cr.End} {
		if t != nil && !t.PB().IsValid() {
			return false
		}
	}
	return true
}

// timeSpec: start (<|<=) cr (<|<=) end as documented.
func (p *PoolS) timeSpec(cr time.Time) bool {
	if p.Cr == nil {
		return true
	}
	s, e := p.Cr.Start.PB().AsTime(), p.Cr.End.PB().AsTime()
	lo := !cr.Before(s)
	if p.Cr.Bounds == 1 || p.Cr.Bounds == 3 {
		lo = cr.After(s)
	}
	hi := !cr.After(e)
	if p.Cr.Bounds == 2 || p.Cr.Bounds == 3 {
		hi = cr.Before(e)
	}
	return lo && hi
}

// timeInverted is the known defect: included iff end < creation < start.
func (p *PoolS) timeInverted(cr time.Time) bool {
	if p.Cr == nil {
		return true
	}
	s, e := p.Cr.Start.PB().AsTime(), p.Cr.End.PB().AsTime()
	return cr.Before(s) && cr.After(e)
}

// --- generators -----------------------------------------------------------------------------

var interestingF = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 2, 10, math.Nextafter(1, 2), math.Nextafter(1, 0), math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e16, 1e16 + 2, 0.1 + 0.2, 0.3}

func genF() *rapid.Generator[F64] {
	return rapid.Custom(func(t *rapid.T) F64 {
		k := rapid.IntRange(0, 9).Draw(t, "fk")
		switch {
		case k < 3:
			return F64(rapid.IntRange(-2, 2).Draw(t, "fi"))
		case k < 9:
			return F64(interestingF[rapid.IntRange(0, len(interestingF)-1).Draw(t, "fs")])
		default:
			return F64(rapid.Float64().Draw(t, "ff"))
		}
	})
}

var tagPool = []string{"a", "b", "c", "A", "", "ab", "a b", "é", "日本", "a\x00"}

func genTag() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		k := rapid.IntRange(0, 19).Draw(t, "tk")
		if k < 14 {
			return tagPool[k%4]
		}
		if k < 19 {
			return tagPool[rapid.IntRange(0, len(tagPool)-1).Draw(t, "ti")]
		}
		return rapid.StringN(0, 6, 20).Draw(t, "ts")
	})
}

var argNames = []string{"x", "y", "X", "", "x "}
var long = strings.Repeat("0123456789abcdef", 20)
var argVals = []string{"1", "2", "", "one", "One", "on", "one ", "1.0", "10", "\u00e9", "e\u0301", long + "a", long + "b"}

// genVal favours the first values, so that they meet.
func genVal(t *rapid.T, name string) string {
	if k := rapid.IntRange(0, 9).Draw(t, name); k < 6 {
		return argVals[k%3]
	}
	return pick(t, argVals, name+"x")
}

func pick(t *rapid.T, l []string, name string) string {
	return l[rapid.IntRange(0, len(l)-1).Draw(t, name)]
}

func genArg(t *rapid.T) string {
	k := rapid.IntRange(0, 9).Draw(t, "arg")
	if k < 8 {
		return argNames[k%2]
	}
	return pick(t, argNames, "argx")
}

func genExt(t *rapid.T, max int) map[string]AnyS {
	n := rapid.IntRange(0, max).Draw(t, "next")
	if n == 0 {
		return nil
	}
	out := map[string]AnyS{}
	for i := 0; i < n; i++ {
		out[rapid.StringN(0, 4, 12).Draw(t, "extk")] = AnyS{
			Type: pick(t, []string{"", "type.googleapis.com/google.protobuf.StringValue", "x"}, "extt"),
			Val:  rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "extv"),
		}
	}
	return out
}

// genWide makes a ticket with many attributes.
func genWide(t *rapid.T) *TicketS {
	tk := &TicketS{Str: map[string]string{}, Dbl: map[string]F64{}}
	n := rapid.SampledFrom([]int{6, 12, 40}).Draw(t, "wide")
	for i := 0; i < n; i++ {
		tk.Tags = append(tk.Tags, fmt.Sprintf("t%d", i))
		tk.Str[fmt.Sprintf("s%d", i)] = genVal(t, "wsv")
		tk.Dbl[fmt.Sprintf("d%d", i)] = genF().Draw(t, "wdv")
	}
	return tk
}

// widePool makes a pool with many filters, all of which the ticket satisfies, but for one perhaps.
func widePool(t *rapid.T, tk *TicketS) *PoolS {
	p := &PoolS{}
	n := rapid.SampledFrom([]int{100, 3, 6, 12}).Draw(t, "wpn")
	for i, k := range tk.Tags {
		if i < n {
			p.Tags = append(p.Tags, k)
		}
	}
	for _, k := range sortedKeys(tk.Str) {
		if len(p.Strs) < n {
			p.Strs = append(p.Strs, StrF{k, tk.Str[k]})
		}
	}
	for _, k := range sortedKeys(tk.Dbl) {
		if v := tk.Dbl[k]; v == v && len(p.Dbls) < n {
			p.Dbls = append(p.Dbls, DblF{k, v, v, 0})
			if rapid.IntRange(0, 3).Draw(t, "wp2") == 3 { // a second filter for the same argument
				p.Dbls = append(p.Dbls, DblF{k, F64(math.Inf(-1)), v, 0})
			}
		}
	}
	at := func(n int, name string) int { return rapid.IntRange(0, n-1).Draw(t, name) }
	switch k := rapid.IntRange(0, 6).Draw(t, "wmiss"); {
	case k == 1 && len(p.Tags) > 0:
		p.Tags[at(len(p.Tags), "wmt")] += "x"
	case k == 2 && len(p.Tags) > 0:
		p.Tags[len(p.Tags)-1] += "x"
	case k == 3 && len(p.Strs) > 0:
		p.Strs[at(len(p.Strs), "wms")].Val += "x"
	case k == 4 && len(p.Strs) > 0:
		p.Strs[len(p.Strs)-1].Val += "x"
	case k == 5 && len(p.Dbls) > 0:
		p.Dbls[at(len(p.Dbls), "wmd")].Bounds = 3
	case k == 6 && len(p.Dbls) > 0:
		p.Dbls[len(p.Dbls)-1].Bounds = 3
	}
	return p
}

func genTicket(t *rapid.T, withNoAttr bool) *TicketS {
	tk := &TicketS{}
	if rapid.IntRange(0, 59).Draw(t, "iswide") == 37 {
		return genWide(t)
	}
	if withNoAttr && rapid.IntRange(0, 7).Draw(t, "noattr") == 0 {
		tk.NoAttr = true
		return tk
	}
	tk.Tags = rapid.SliceOfN(genTag(), 0, 4).Draw(t, "tags")
	if n := rapid.IntRange(0, 3).Draw(t, "nstr"); n > 0 {
		tk.Str = map[string]string{}
		for i := 0; i < n; i++ {
			tk.Str[genArg(t)] = genVal(t, "sv")
		}
	}
	if n := rapid.IntRange(0, 3).Draw(t, "ndbl"); n > 0 {
		tk.Dbl = map[string]F64{}
		for i := 0; i < n; i++ {
			tk.Dbl[genArg(t)] = genF().Draw(t, "dv")
		}
	}
	return tk
}

func genPool(t *rapid.T) *PoolS {
	p := &PoolS{}
	// mostly one or two filters so that membership is not trivially false
	kind := rapid.IntRange(0, 6).Draw(t, "pk")
	if kind == 0 {
		return p
	}
	if kind == 1 || kind == 4 || kind == 6 {
		p.Tags = rapid.SliceOfN(genTag(), 1, 2).Draw(t, "ptags")
	}
	if kind == 2 || kind == 5 || kind == 6 {
		n := rapid.IntRange(1, 2).Draw(t, "npstr")
		for i := 0; i < n; i++ {
			p.Strs = append(p.Strs, StrF{genArg(t), genVal(t, "psv")})
		}
	}
	if kind == 3 || kind == 4 || kind == 5 {
		n := rapid.IntRange(1, 2).Draw(t, "npdbl")
		for i := 0; i < n; i++ {
			p.Dbls = append(p.Dbls, DblF{genArg(t), genF().Draw(t, "pmin"), genF().Draw(t, "pmax"), int32(rapid.IntRange(0, 3).Draw(t, "pb"))})
		}
	}
	return p
}

// aimPools points some pools' filters at attributes tickets really have (so that membership and
// its boundaries are hit often).
func aimPool(t *rapid.T, p *PoolS, tks []*TicketS) {
	if len(tks) == 0 {
		return
	}
	tk := tks[rapid.IntRange(0, len(tks)-1).Draw(t, "aim")]
	if tk.NoAttr {
		return
	}
	for i := range p.Strs {
		if rapid.Bool().Draw(t, "aims") {
			ks := sortedKeys(tk.Str)
			if len(ks) > 0 {
				k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "aimsk")]
				p.Strs[i] = StrF{k, tk.Str[k]}
			}
		}
	}
	for i := range p.Dbls {
		ks := sortedKeys(tk.Dbl)
		if len(ks) == 0 {
			continue
		}
		k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "aimdk")]
		v := float64(tk.Dbl[k])
		switch rapid.IntRange(0, 6).Draw(t, "aimd") {
		case 0:
			p.Dbls[i].Arg, p.Dbls[i].Min = k, F64(v)
		case 1:
			p.Dbls[i].Arg, p.Dbls[i].Max = k, F64(v)
		case 2:
			p.Dbls[i].Arg, p.Dbls[i].Min, p.Dbls[i].Max = k, F64(v), F64(v)
		case 3:
			p.Dbls[i].Arg, p.Dbls[i].Min, p.Dbls[i].Max = k, F64(math.Inf(-1)), F64(math.Inf(1))
		case 4:
			p.Dbls[i].Arg, p.Dbls[i].Min, p.Dbls[i].Max = k, F64(v), F64(math.Inf(1))
		case 5:
			p.Dbls[i].Arg, p.Dbls[i].Min, p.Dbls[i].Max = k, F64(math.Inf(-1)), F64(v)
		}
	}
	if len(p.Tags) > 0 && len(tk.Tags) > 0 && rapid.Bool().Draw(t, "aimt") {
		p.Tags[0] = tk.Tags[rapid.IntRange(0, len(tk.Tags)-1).Draw(t, "aimti")]
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// idSet turns tickets into a sorted multiset of ids, without sentinels.
func (c *Core) ids(ts []*pb.Ticket) []string {
	out := []string{}
	for _, t := range ts {
		if !c.IsSync(t) {
			out = append(out, t.GetId())
		}
	}
	sort.Strings(out)
	return out
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffStrs(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var miss, extra []string
	for k, n := range w {
		if g[k] < n {
			miss = append(miss, k)
		}
	}
	for k, n := range g {
		if w[k] < n {
			extra = append(extra, k)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return fmt.Sprintf("missing %v, surplus %v", head(fmt.Sprint(miss), 300), head(fmt.Sprint(extra), 300))
}

// wireCopy copies a message by way of its encoding (proto.Clone loses negative zeros).
func wireCopy[M proto.Message](m M) M {
	out := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(mustMarshal(m), out); err != nil {
		panic(harnessErr{err})
	}
	return out.(M)
}
