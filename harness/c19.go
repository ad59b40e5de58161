package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"pgregory.net/rapid"
)

// C19: every configuration variable has the effect it names, and its default when unset.

type Case19 struct {
	Env   map[string]string // what is set; addresses: "own"
	Dep   bool
	Probe map[string]bool
}

var defaults19 = map[string]string{
	"OM_STATE_STORAGE_TYPE": "redis", "OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_WRITE_PORT": "6379",
	"OM_REDIS_READ_HOST": "127.0.0.1", "OM_REDIS_READ_PORT": "6379",
	"OM_REDIS_WRITE_USER": "default", "OM_REDIS_WRITE_PASSWORD": "om-redis",
	"OM_REDIS_READ_USER": "default", "OM_REDIS_READ_PASSWORD": "om-redis",
	"OM_REDIS_POOL_MAX_ACTIVE": "500", "OM_CACHE_IN_MAX_UPDATES_PER_POLL": "10000",
	"OM_CACHE_IN_WAIT_TIMEOUT_MS": "1500", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "50",
	"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "500", "OM_CACHE_TICKET_TTL_SECS": "600",
	"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": "600", "OM_MAX_STATE_UPDATES_PER_CALL": "500",
	"OM_MMF_TIMEOUT_SECS": "500", "OM_MATCH_TICKET_DEACTIVATION_WAIT": "false",
	"OM_LOGGING_LEVEL": "info", "OM_LOGGING_FORMAT": "json", "PORT": "8080",
}

var values19 = []struct {
	k string
	v []string
}{
	{"OM_CACHE_IN_MAX_UPDATES_PER_POLL", []string{"1", "7", "500", "20000"}},
	{"OM_CACHE_IN_WAIT_TIMEOUT_MS", []string{"5", "60", "700", "2500"}},
	{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", []string{"1", "2", "5", "40", "200"}},
	{"OM_CACHE_OUT_WAIT_TIMEOUT_MS", []string{"1", "20", "1200", "2500"}},
	{"OM_CACHE_TICKET_TTL_SECS", []string{"40", "100", "900", "86400", "4000000"}},
	{"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", []string{"1", "100", "3000"}},
	{"OM_MAX_STATE_UPDATES_PER_CALL", []string{"1", "3", "40", "700"}},
	{"OM_MMF_TIMEOUT_SECS", []string{"1", "2", "30", "1000"}},
	{"OM_MATCH_TICKET_DEACTIVATION_WAIT", []string{"true", "false", "TRUE", "1", "0"}},
	{"OM_REDIS_WRITE_USER", []string{"writer", "default"}},
	{"OM_REDIS_WRITE_PASSWORD", []string{"w-secret", "om redis é"}},
	{"OM_REDIS_READ_USER", []string{"reader", "default"}},
	{"OM_REDIS_READ_PASSWORD", []string{"r-secret", "12345"}},
	{"OM_REDIS_WRITE_HOST", []string{"127.0.0.2"}},
	{"OM_REDIS_WRITE_PORT", []string{"own"}},
	{"OM_REDIS_READ_HOST", []string{"127.0.0.3", "127.0.0.2"}},
	{"OM_REDIS_READ_PORT", []string{"own"}},
	{"OM_REDIS_POOL_MAX_ACTIVE", []string{"1", "2", "5"}},
	{"OM_REDIS_POOL_IDLE_TIMEOUT", []string{"20s", "5m"}},
	{"OM_STATE_STORAGE_TYPE", []string{"memory", "redis"}},
	{"OM_LOGGING_LEVEL", []string{"debug", "info", "warn", "error", "fatal", "panic", "trace", "DEBUG", "Warning"}},
	{"OM_LOGGING_FORMAT", []string{"json", "text", "stackdriver", "JSON"}},
	{"PORT", []string{"own"}},
}

var probes19 = []string{"limit", "batch", "poll", "ttl", "mmf", "wait", "level"}

func genCase19(t *rapid.T) any {
	c := &Case19{Env: map[string]string{}, Dep: rapid.Bool().Draw(t, "dep"), Probe: map[string]bool{}}
	dens := rapid.IntRange(0, 3).Draw(t, "density")
	for _, v := range values19 {
		set := false
		switch dens {
		case 0:
			set = rapid.IntRange(0, 9).Draw(t, "set") == 5
		case 1:
			set = rapid.IntRange(0, 2).Draw(t, "set") == 1
		case 2:
			set = rapid.Bool().Draw(t, "set")
		case 3:
			set = rapid.IntRange(0, 7).Draw(t, "set") != 4
		}
		if set {
			c.Env[v.k] = pick(t, v.v, "val")
		}
	}
	if c.Env["OM_STATE_STORAGE_TYPE"] == "memory" && rapid.IntRange(0, 2).Draw(t, "mem") != 1 {
		delete(c.Env, "OM_STATE_STORAGE_TYPE") // most with redis
	}
	if w := c.val("OM_CACHE_IN_WAIT_TIMEOUT_MS"); c.val("OM_CACHE_IN_MAX_UPDATES_PER_POLL") == "1" && len(w) > 2 {
		c.Env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = "60" // or nothing ever shows
	}
	n := rapid.IntRange(1, 3).Draw(t, "nprobe")
	for i := 0; i < n; i++ {
		c.Probe[pick(t, probes19, "probe")] = true
	}
	return c
}

func (c *Case19) val(k string) string {
	if v, ok := c.Env[k]; ok {
		return v
	}
	return defaults19[k]
}

func run19(x *X, ci any) (res R) {
	cs := ci.(*Case19)
	for k := range cs.Env {
		res.Labels = append(res.Labels, "set:"+k)
	}
	sort.Strings(res.Labels)
	needNS := cs.val("PORT") == "8080"
	env := map[string]string{}
	for k, v := range cs.Env {
		if v == "own" {
			if k == "PORT" {
				continue // StartCore chooses one
			}
			v = strconv.Itoa(freePort())
		}
		env[k] = v
	}
	get := func(k string) string {
		if v, ok := env[k]; ok {
			return v
		}
		return defaults19[k]
	}
	num := func(k string) int { n, _ := strconv.Atoi(get(k)); return n }
	mem := get("OM_STATE_STORAGE_TYPE") == "memory"
	waddr := net.JoinHostPort(get("OM_REDIS_WRITE_HOST"), get("OM_REDIS_WRITE_PORT"))
	raddr := net.JoinHostPort(get("OM_REDIS_READ_HOST"), get("OM_REDIS_READ_PORT"))
	if strings.HasSuffix(waddr, ":6379") || strings.HasSuffix(raddr, ":6379") {
		needNS = true
	}
	if needNS && !x.NS {
		return R{Skip: "default ports need a network namespace"}
	}
	rd := NewFakeRedis()
	x.Defer(rd.Close)
	listen := func(a string, role Role) *listener {
		l, err := rd.ListenIn(nil, a, role)
		if err != nil {
			panic(harnessErr{err})
		}
		return l
	}
	var wl, rl *listener
	if waddr == raddr {
		wl = listen(waddr, RoleRW)
		rl = wl
	} else {
		wl = listen(waddr, RoleWrite)
		rl = listen(raddr, RoleRead)
	}
	var decoys []*listener
	used := map[string]bool{waddr: true, raddr: true}
	for _, h := range []string{"127.0.0.1", get("OM_REDIS_WRITE_HOST"), get("OM_REDIS_READ_HOST")} {
		for _, p := range []string{"6379", get("OM_REDIS_WRITE_PORT"), get("OM_REDIS_READ_PORT")} {
			a := net.JoinHostPort(h, p)
			if !used[a] && x.NS {
				used[a] = true
				decoys = append(decoys, listen(a, RoleRW))
			}
		}
	}
	ttl := time.Duration(num("OM_CACHE_TICKET_TTL_SECS")) * time.Second
	attl := ttl + time.Duration(num("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"))*time.Second
	inW := time.Duration(num("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond
	outW := time.Duration(num("OM_CACHE_OUT_WAIT_TIMEOUT_MS")) * time.Millisecond
	thr := num("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD")
	limit := num("OM_MAX_STATE_UPDATES_PER_CALL")
	slack := x.T(4 * time.Second)
	now := time.Now()
	aged := func(d time.Duration, k int) string { return fmt.Sprintf("%d-%d", now.Add(-d).UnixMilli(), k) }
	wantInactive, wantAssigned := 0, 0
	if cs.Probe["ttl"] && !mem {
		margin := 30 * time.Second
		var es [][]string
		for k := 0; k < 3; k++ {
			es = append(es, []string{"deactivate", aged(ttl+15*time.Second, k)})
			es = append(es, []string{"assign", aged(attl+15*time.Second, k), "assignment", detBytes(&pb.Assignment{Connection: "c"})})
		}
		for k := 0; k < 2; k++ {
			es = append(es, []string{"deactivate", aged(ttl-margin, 10+k)})
			wantInactive++
		}
		for k := 0; k < 4; k++ {
			es = append(es, []string{"assign", aged(max(attl-margin, 0), 10+k), "assignment", detBytes(&pb.Assignment{Connection: "c"})})
			wantAssigned++
		}
		rd.Preload(uint64(now.UnixMilli()), es)
	}
	bin := "core-ws"
	if cs.Dep {
		bin = "core-dep"
	}
	senv := map[string]string{"VH_STDOUT": "1"}
	for k, v := range env {
		senv[k] = v
	}
	if _, ok := cs.Env["PORT"]; !ok {
		senv["PORT"] = ""
	}
	c, err := x.StartCore(senv, bin)
	if err != nil {
		// it did not come up where it should: that is the property's business
		if len(cs.Env) > 0 || x.NS {
			return live("the server did not come up as configured: %v", err)
		}
		return R{Skip: "start: " + err.Error()}
	}
	if !mem {
		c.Redis = rd
	}
	w := &World{x: x, c: c}
	create := func(ex bool) (string, *R) {
		ctx, cancel := rpcCtx(x)
		defer cancel()
		tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"q"}}}
		r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: tk})
		if err != nil {
			return "", w.callErr("CreateTicket", err)
		}
		return r.GetTicketId(), nil
	}
	// the lifetime of a ticket that does not say otherwise
	t0 := time.Now()
	id, rr := create(false)
	if rr != nil {
		return *rr
	}
	t1 := time.Now()
	ctx, cancel := rpcCtx(x)
	_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
	cancel()
	if err != nil {
		return *w.callErr("ActivateTickets", err)
	}
	var tk *pb.Ticket
	end := time.Now().Add(3*inW + 3*slack)
	for tk == nil {
		p, err := c.Query(map[string]*pb.Pool{"s": {TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "q"}}}})
		if err != nil {
			return badErr("query", err)
		}
		for _, k := range p["s"] {
			if k.GetId() == id {
				tk = k
			}
		}
		if time.Now().After(end) {
			return live("an activated ticket did not show up within %v", 3*inW+3*slack)
		}
		time.Sleep(2 * time.Millisecond)
	}
	if ex := tk.GetExpirationTime().AsTime(); ex.Before(t0.Add(ttl-time.Second)) || ex.After(t1.Add(ttl+time.Second)) {
		return bad("a ticket created between %v and %v without an expiration time expires at %v; the configured lifetime is %v", t0.UTC(), t1.UTC(), ex, ttl)
	}
	// where it is stored
	for _, d := range decoys {
		if _, _, n := rd.ConnStats(d); n > 0 {
			return bad("the server connected to storage at %s; configured are %s for writing and %s for reading (%s)", d.addr, waddr, raddr, get("OM_STATE_STORAGE_TYPE"))
		}
	}
	if mem {
		for _, l := range []*listener{wl, rl} {
			if _, _, n := rd.ConnStats(l); n > 0 {
				return bad("the server connected to %s although it stores its state in memory", l.addr)
			}
		}
		res.Labels = append(res.Labels, "memory")
	} else {
		found := false
		for _, e := range rd.LogCopy() {
			if e.ID() == id {
				found = true
				st := &pb.Ticket{}
				if proto.Unmarshal([]byte(e.Fields[1]), st) != nil || !st.GetExpirationTime().AsTime().Equal(tk.GetExpirationTime().AsTime()) {
					return bad("the ticket in storage differs from that in the pool")
				}
			}
		}
		if !found {
			return bad("the ticket was not stored at %s", waddr)
		}
		if rd.Counts(rl)["XREAD"] == 0 {
			return bad("nothing was read from %s", raddr)
		}
		for _, l := range []struct {
			l *listener
			p string
		}{{wl, "WRITE"}, {rl, "READ"}} {
			as := rd.Auths(l.l)
			if len(as) == 0 {
				return bad("the server did not authenticate at the %s address %s", l.p, l.l.addr)
			}
			for _, a := range as {
				ok := false
				for _, q := range []string{"WRITE", "READ"} {
					if (q == l.p || wl == rl) && len(a) == 2 && a[0] == get("OM_REDIS_"+q+"_USER") && a[1] == get("OM_REDIS_"+q+"_PASSWORD") {
						ok = true
					}
				}
				if !ok {
					return bad("the server authenticated with %q at the %s address; configured are %q, %q", a, l.p, get("OM_REDIS_"+l.p+"_USER"), get("OM_REDIS_"+l.p+"_PASSWORD"))
				}
			}
			if wl == rl {
				// both kinds of credentials were used
				n := map[string]bool{}
				for _, a := range as {
					n[strings.Join(a, "\x00")] = true
				}
				if !n[get("OM_REDIS_"+l.p+"_USER")+"\x00"+get("OM_REDIS_"+l.p+"_PASSWORD")] {
					return bad("the %s credentials were not used", l.p)
				}
			}
		}
		for _, q := range rd.XReadsCopy() {
			if q.Count != get("OM_CACHE_IN_MAX_UPDATES_PER_POLL") || q.Block != get("OM_CACHE_IN_WAIT_TIMEOUT_MS") {
				return bad("storage is polled for %s updates and %s ms; configured are %s and %s", q.Count, q.Block, get("OM_CACHE_IN_MAX_UPDATES_PER_POLL"), get("OM_CACHE_IN_WAIT_TIMEOUT_MS"))
			}
		}
	}
	if cs.Probe["ttl"] && !mem {
		end := time.Now().Add(4*inW + 2*slack)
		for {
			ss, err := c.Metrics()
			if err != nil {
				return R{Skip: err.Error()}
			}
			a, _ := sumSeries(ss, "om_core_cache_tickets_inactive", "", "")
			b, _ := sumSeries(ss, "om_core_cache_assignments", "", "")
			if int(a) == wantInactive && int(b) == wantAssigned {
				break
			}
			if time.Now().After(end) {
				return live("of inactive entries aged %v and %v, and assignments aged %v and %v, %v and %v are kept instead of %d and %d; the configured lifetimes are %v and %v",
					ttl-30*time.Second, ttl+15*time.Second, attl-30*time.Second, attl+15*time.Second, a, b, wantInactive, wantAssigned, ttl, attl)
			}
			time.Sleep(20 * time.Millisecond)
		}
		res.Labels = append(res.Labels, "ttl")
	}
	now3 := time.Now().UnixMilli()
	fakeIDs := func(n int) (out []string) {
		for k := 0; k < n; k++ {
			out = append(out, fmt.Sprintf("%d-%d", now3, 50000+k))
		}
		return
	}
	// calls one state-changing operation with n updates
	call := func(kind, n int) (error, time.Duration) {
		ctx, cancel := rpcCtx(x)
		defer cancel()
		s := time.Now()
		var err error
		ids := fakeIDs(n)
		switch kind {
		case 0:
			_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		case 1:
			_, err = c.Client.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
		case 2:
			ro := &pb.Roster{Assignment: &pb.Assignment{Connection: "x"}}
			for _, id := range ids {
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
			}
			_, err = c.Client.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
		}
		return err, time.Since(s)
	}
	names := []string{"ActivateTickets", "DeactivateTickets", "CreateAssignments"}
	if cs.Probe["poll"] && !mem {
		// time until updates show: one after the other, each right after the previous one showed
		if err := c.sync1(x.T(30 * time.Second)); err != nil {
			return badErr("sync", err)
		}
		s := time.Now()
		for k := 0; k < 3; k++ {
			if err := c.sync1(x.T(30 * time.Second)); err != nil {
				return badErr("sync", err)
			}
		}
		d := time.Since(s)
		if d > 3*(inW+x.T(250*time.Millisecond)) {
			return live("three updates, one after the other, took %v to show; the configured poll wait is %v", d, inW)
		}
		res.Labels = append(res.Labels, "poll")
	}
	if cs.Probe["mmf"] {
		T := time.Duration(num("OM_MMF_TIMEOUT_SECS")) * time.Second
		var mu sync.Mutex
		var begun, over time.Time
		var dl time.Time
		var has bool
		done := make(chan struct{})
		m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
			mu.Lock()
			begun = time.Now()
			dl, has = s.Context().Deadline()
			mu.Unlock()
			readChunks(s)
			if T > 3*time.Second {
				return nil
			}
			<-s.Context().Done()
			mu.Lock()
			over = time.Now()
			mu.Unlock()
			close(done)
			return nil
		})
		ctx, cancel := context.WithTimeout(context.Background(), T+x.T(15*time.Second))
		s := time.Now()
		_, err := c.Invoke(ctx, &pb.Profile{Name: "p"}, m.Spec("slow"))
		cancel()
		if msg, d := c.CrashedSoon(err); d {
			return bad("%s", msg)
		}
		if T <= 3*time.Second {
			select {
			case <-done:
			case <-time.After(slack):
				return live("a match function was not cancelled within %v; the configured timeout is %v", time.Since(s), T)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if begun.IsZero() {
			return bad("the match function was not called: %v", err)
		}
		if !over.IsZero() {
			if d := over.Sub(s); d < T-50*time.Millisecond {
				return bad("a match function was cancelled after %v; the configured timeout is %v", d, T)
			}
			if d := over.Sub(begun); d > T+x.T(900*time.Millisecond) {
				return live("a match function was cancelled after %v; the configured timeout is %v", d, T)
			}
		}
		if has {
			if d := dl.Sub(s); d < T-300*time.Millisecond || d > T+slack {
				return bad("a match function has %v to complete; the configured timeout is %v", d, T)
			}
		}
		res.Labels = append(res.Labels, "mmf")
	}
	if cs.Probe["wait"] {
		wait, _ := strconv.ParseBool(get("OM_MATCH_TICKET_DEACTIVATION_WAIT"))
		fast, slow := time.Hour, time.Duration(0)
		for k := 0; k < 3; k++ {
			mid := fmt.Sprintf("%d-%d", now3, 90000+k)
			m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
				readChunks(s)
				return s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: mid}}}}}})
			})
			ctx, cancel := rpcCtx(x)
			s := time.Now()
			st, err := c.Client.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "p"}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
			if err == nil {
				_, err = st.Recv()
			}
			d := time.Since(s)
			stored := mem
			if !mem {
				for _, e := range rd.LogCopy() {
					if len(e.Fields) == 2 && e.Fields[0] == "deactivate" && e.Fields[1] == mid {
						stored = true
					}
				}
			}
			for err == nil {
				_, err = st.Recv()
			}
			cancel()
			if msg, dd := c.CrashedSoon(err); dd {
				return bad("%s", msg)
			}
			if err != io.EOF {
				return live("an invocation failed: %v", err)
			}
			fast, slow = min(fast, d), max(slow, d)
			if wait && !stored {
				return bad("a match was returned before the deactivation of its ticket was stored, although OM_MATCH_TICKET_DEACTIVATION_WAIT is %s", get("OM_MATCH_TICKET_DEACTIVATION_WAIT"))
			}
			if !wait {
				break_ := time.Now().Add(slack + outW + inW)
				for !mem && !stored && time.Now().Before(break_) {
					for _, e := range rd.LogCopy() {
						if len(e.Fields) == 2 && e.Fields[0] == "deactivate" && e.Fields[1] == mid {
							stored = true
						}
					}
					time.Sleep(5 * time.Millisecond)
				}
				if !stored {
					return live("the ticket of a returned match was not deactivated")
				}
			}
		}
		// without the wait for local replication, matches do not take as long as that does
		if !wait && inW >= 1500*time.Millisecond && fast > outW+inW/3+x.T(250*time.Millisecond) {
			return live("matches take at least %v although OM_MATCH_TICKET_DEACTIVATION_WAIT is %s, the batch wait %v and the poll wait %v", fast, get("OM_MATCH_TICKET_DEACTIVATION_WAIT"), outW, inW)
		}
		if wait && inW >= 1500*time.Millisecond && slow < inW/2 {
			return live("matches take at most %v although OM_MATCH_TICKET_DEACTIVATION_WAIT is %s and replication takes %v", slow, get("OM_MATCH_TICKET_DEACTIVATION_WAIT"), inW)
		}
		res.Labels = append(res.Labels, "wait")
	}
	if cs.Probe["limit"] {
		for k, name := range names {
			err, _ := call(k, limit+1)
			if m, d := c.CrashedSoon(err); d {
				return bad("%s", m)
			}
			if status.Code(err) != codes.InvalidArgument {
				return bad("%s with %d updates was answered with %v; the configured limit is %d", name, limit+1, err, limit)
			}
		}
		k := len(cs.Env) % 3
		if err, _ := call(k, limit); err != nil {
			if status.Code(err) == codes.InvalidArgument {
				return bad("%s with %d updates was answered with %v; that is the configured limit", names[k], limit, err)
			}
			return *w.callErr(names[k], err)
		}
		res.Labels = append(res.Labels, "limit")
	}
	if cs.Probe["batch"] {
		// the wait: updates that come alone
		fast := time.Hour
		for k := 0; k < 3; k++ {
			err, d := call(k, 1)
			if err != nil {
				return *w.callErr(names[k], err)
			}
			fast = min(fast, d)
		}
		lim := outW
		if thr == 1 {
			lim = 0
		}
		if fast > lim+x.T(250*time.Millisecond) {
			return live("single updates take at least %v; the configured batch wait is %v, the batch size %d", fast, outW, thr)
		}
		if thr > 1 && thr <= limit && outW >= 400*time.Millisecond {
			s0 := time.Now()
			err, d := call(0, thr)
			if err != nil {
				return *w.callErr(names[0], err)
			}
			if outW >= time.Second && d > outW/2 {
				return live("%d updates at once took %v although that is the batch size; the batch wait is %v", thr, d, outW)
			}
			if err, _ = call(1, thr-1); err != nil {
				return *w.callErr(names[1], err)
			}
			if d := time.Since(s0); d < outW-10*time.Millisecond {
				return bad("two calls with %d and %d updates took %v together; the batch size is %d and the wait %v", thr, thr-1, d, thr, outW)
			}
			res.Labels = append(res.Labels, "batch")
		}
		res.Labels = append(res.Labels, "batchwait")
	}
	if !mem {
		for _, tr := range rd.TrimsCopy() {
			if tr.Batch > thr {
				return bad("a batch of %d updates was written; the configured size is %d", tr.Batch, thr)
			}
			d := tr.At.Add(-ttl).Sub(time.UnixMilli(int64(tr.MinMS)))
			if d < -time.Second || d > slack+2*time.Second {
				return bad("storage was trimmed to ids from %v on at %v; the configured lifetime is %v", time.UnixMilli(int64(tr.MinMS)).UTC(), tr.At.UTC(), ttl)
			}
		}
		for _, l := range []*listener{wl, rl} {
			_, peak, _ := rd.ConnStats(l)
			m := num("OM_REDIS_POOL_MAX_ACTIVE")
			if wl == rl {
				m *= 2
			}
			if peak > m {
				return bad("%d connections to %s at a time; the configured pool size is %s", peak, l.addr, get("OM_REDIS_POOL_MAX_ACTIVE"))
			}
		}
	}
	// the log
	if cs.Probe["level"] {
		ctx, cancel := rpcCtx(x)
		defer cancel()
		if _, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Id: "given", Attributes: &pb.Ticket_FilterableData{Tags: []string{"z"}}}}); err != nil {
			return *w.callErr("CreateTicket", err)
		}
		m := x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
			readChunks(s)
			return status.Error(codes.Internal, "failing")
		})
		c.Invoke(ctx, &pb.Profile{Name: "p"}, m.Spec("failing"))
		time.Sleep(20 * time.Millisecond)
	}
	if s := judgeLog19(c.stderr.String()+"\n"+c.Stdout.String(), get("OM_LOGGING_FORMAT"), get("OM_LOGGING_LEVEL"), cs.Probe["level"], c.stderr.full); s != "" {
		return bad("%s", s)
	}
	res.Nontriv = len(cs.Env) > 0
	return res
}

var sev19 = map[string]int{"trace": 0, "debug": 1, "info": 2, "warning": 3, "warn": 3, "error": 4, "fatal": 5, "panic": 6, "critical": 5, "alert": 6}

// judgeLog19 checks the format and the levels of the log lines.
func judgeLog19(s, format, level string, events, cut bool) string {
	format, level = strings.ToLower(format), strings.ToLower(level)
	min := sev19[level]
	seen := map[int]int{}
	lines := strings.Split(s, "\n")
	if cut && len(lines) > 60 { // the middle of a long log is missing
		lines = lines[:60]
	}
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var o map[string]any
		isJSON := json.Unmarshal([]byte(l), &o) == nil
		lv := ""
		switch {
		case isJSON && o["severity"] != nil:
			if format != "stackdriver" {
				return fmt.Sprintf("the log has the line %s; the configured format is %s", head(l, 200), format)
			}
			lv = strings.ToLower(fmt.Sprint(o["severity"]))
		case isJSON && o["level"] != nil:
			if format != "json" {
				return fmt.Sprintf("the log has the line %s; the configured format is %s", head(l, 200), format)
			}
			lv = fmt.Sprint(o["level"])
		case strings.HasPrefix(l, "time=") && strings.Contains(l, " level="):
			if format != "text" {
				return fmt.Sprintf("the log has the line %s; the configured format is %s", head(l, 200), format)
			}
			lv = strings.Fields(l[strings.Index(l, " level=")+7:])[0]
		default:
			continue // not from the server's logger
		}
		v, ok := sev19[lv]
		if !ok {
			return fmt.Sprintf("the log has the line %s of unknown level", head(l, 200))
		}
		if format == "stackdriver" && v == 1 {
			v = 0 // it has no trace level
		}
		seen[v]++
		if v < min && !(format == "stackdriver" && min <= 1) {
			return fmt.Sprintf("the log has the line %s; the configured level is %s", head(l, 200), level)
		}
	}
	if min <= 1 && seen[0]+seen[1] == 0 {
		return fmt.Sprintf("nothing of level debug was logged; the configured level is %s", level)
	}
	if min <= 2 && seen[2] == 0 {
		return fmt.Sprintf("nothing of level info was logged; the configured level is %s", level)
	}
	if events && !cut {
		if min <= 3 && seen[3] == 0 {
			return fmt.Sprintf("no warning about a client-chosen ticket id was logged; the configured level is %s", level)
		}
		if min <= 4 && seen[4] == 0 {
			return fmt.Sprintf("no error about a failing match function was logged; the configured level is %s", level)
		}
	}
	return ""
}

func init() {
	register(&Check{
		ID:       "C19",
		Rule:     "A case is an environment (each of 23 variables unset or with one of several values, at varying density) and 1-3 probes. Always judged: listening port, storage type and addresses (with decoy listeners at the other combinations of hosts and ports), credentials, poll size and wait, trim threshold, batch sizes, connection limits, lifetime of a created ticket, log format and levels. Probes: update limit, batch size and wait by measured times, latency of replication, lifetimes of aged inactive entries and assignments, function timeout, deactivation wait, log events. Non-trivial: at least one variable is set.",
		Quick:    224,
		Thorough: 5000,
		MaxSh:    32,
		New:      func() any { return &Case19{} },
		Gen:      genCase19,
		Run:      run19,
		Assume:   []string{"The server and the harness read the same clock."},
	})
}
