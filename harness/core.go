package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
)

// X is the context of one case: everything it starts is stopped by Close.
type X struct {
	Dir     string // directory with the binaries
	Shard   int
	NS      bool   // own network namespace
	In      *NetNS // where StartCore, NewMmf and NewRedis put things (nil: the shard's own namespace)
	Slow    float64
	cleanup []func()
	cores   []*Core
	queries []*Querier
	mu      sync.Mutex
}

func (x *X) Defer(f func()) {
	x.mu.Lock()
	x.cleanup = append(x.cleanup, f)
	x.mu.Unlock()
}

func (x *X) Close() {
	x.mu.Lock()
	c := x.cleanup
	x.cleanup = nil
	x.mu.Unlock()
	for i := len(c) - 1; i >= 0; i-- {
		c[i]()
	}
}

// T scales a time-out.
func (x *X) T(d time.Duration) time.Duration {
	if x.Slow > 1 {
		return time.Duration(float64(d) * x.Slow)
	}
	return d
}

var portCtr int
var portMu sync.Mutex

func nextPortLocked() int {
	portCtr++
	return 10100 + (portCtr+os.Getpid()*37)%15000
}

func nextPort() int {
	portMu.Lock()
	defer portMu.Unlock()
	return nextPortLocked()
}

// freePort returns a port below the ephemeral range on which nobody listens.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 15000; i++ {
		p := nextPortLocked()
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		ln.Close()
		return p
	}
	panic("no free port")
}

type tailBuf struct {
	mu   sync.Mutex
	b    []byte
	max  int
	full bool
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > t.max {
		if !t.full {
			// keep head half and tail half
			t.full = true
		}
		h := t.max / 2
		t.b = append(t.b[:h:h], t.b[len(t.b)-h:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type Core struct {
	x        *X
	Env      map[string]string
	Port     int
	cmd      *exec.Cmd
	Conn     *grpc.ClientConn
	Client   pb.OpenMatchServiceClient
	exited   chan struct{}
	waitErr  error
	stopping bool
	mu       sync.Mutex
	stderr   *tailBuf
	Stdout   *tailBuf
	Redis    *FakeRedis // store used for sentinels; nil: memory backend
	syncN    int
	SyncIDs  map[string]bool
	q        *Querier
	ns       *NetNS
}

// baseEnv: fast cycles, quiet log.
func baseEnv() map[string]string {
	return map[string]string{
		"OM_LOGGING_LEVEL":             "panic",
		"OM_STATE_STORAGE_TYPE":        "memory",
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":  "2",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "1",
	}
}

// redisEnv points the server at a fake redis listener.
func redisEnv(env map[string]string, l *listener) {
	host, port, _ := net.SplitHostPort(l.addr)
	env["OM_STATE_STORAGE_TYPE"] = "redis"
	env["OM_REDIS_WRITE_HOST"] = host
	env["OM_REDIS_WRITE_PORT"] = port
	env["OM_REDIS_READ_HOST"] = host
	env["OM_REDIS_READ_PORT"] = port
}

// NewRedis starts a fake redis on one listener (or separate write and read listeners).
func (x *X) NewRedis() (*FakeRedis, *listener) {
	r := NewFakeRedis()
	l, err := r.ListenIn(x.In, "127.0.0.1:0", RoleRW)
	if err != nil {
		panic(harnessErr{err})
	}
	x.Defer(r.Close)
	return r, l
}

type harnessErr struct{ err error }

func (h harnessErr) Error() string { return h.err.Error() }

type startOpts struct {
	bin    string // core-ws or core-dep
	http   bool
	noHTTP bool
	stdout bool
	raw    bool // do not merge PORT
}

// StartCore starts the server and waits until it answers.
func (x *X) StartCore(env map[string]string, bin string) (*Core, error) {
	var last error
	for i := 0; i < 6; i++ {
		c, err, retry := x.startOnce(env, bin)
		if err == nil {
			x.mu.Lock()
			x.cores = append(x.cores, c)
			x.mu.Unlock()
			x.Defer(c.Kill)
			return c, nil
		}
		last = err
		if !retry {
			break
		}
		time.Sleep(time.Duration(50*(i+1)) * time.Millisecond)
	}
	return nil, last
}

func (x *X) startOnce(env map[string]string, bin string) (*Core, error, bool) {
	c := &Core{x: x, ns: x.In, Env: map[string]string{}, exited: make(chan struct{}), stderr: &tailBuf{max: 1 << 16}, SyncIDs: map[string]bool{}}
	for k, v := range env {
		c.Env[k] = v
	}
	if p, ok := c.Env["PORT"]; ok {
		if p == "" { // explicitly unset: default port
			delete(c.Env, "PORT")
			c.Port = 8080
		} else {
			fmt.Sscan(p, &c.Port)
		}
	} else {
		c.Port = freePort()
		c.Env["PORT"] = fmt.Sprint(c.Port)
	}
	cmd := exec.Command(x.Dir + "/" + bin)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single"}
	for k, v := range c.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stderr = c.stderr
	if c.Env["VH_STDOUT"] != "" {
		c.Stdout = &tailBuf{max: 1 << 20}
		cmd.Stdout = c.Stdout
	}
	c.cmd = cmd
	if err := c.ns.start(cmd); err != nil {
		return nil, err, true
	}
	go func() {
		c.waitErr = cmd.Wait()
		close(c.exited)
	}()
	deadline := time.Now().Add(30 * time.Second)
	ready := func(port int) bool {
		k, err := c.ns.dial(fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err != nil {
			return false
		}
		k.Close()
		return true
	}
	okG, okH := false, false
	for !(okG && okH) {
		select {
		case <-c.exited:
			return nil, fmt.Errorf("server exited at start: %v: %s", c.waitErr, tail(c.stderr.String(), 2000)), true
		default:
		}
		if !okG {
			okG = ready(c.Port)
		}
		if okG && !okH {
			okH = ready(58081)
		}
		if okG && okH {
			break
		}
		if time.Now().After(deadline) {
			cmd.Process.Kill()
			return nil, errors.New("server did not come up within 30 s"), false
		}
		time.Sleep(2 * time.Millisecond)
	}
	if err := c.dial(); err != nil {
		cmd.Process.Kill()
		return nil, err, false
	}
	return c, nil, false
}

func (c *Core) dial() error {
	conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", c.Port), c.dialer(),
		grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(512<<20), grpc.MaxCallSendMsgSize(512<<20)))
	if err != nil {
		return err
	}
	c.Conn = conn
	c.Client = pb.NewOpenMatchServiceClient(conn)
	return nil
}

func (c *Core) dialer() grpc.DialOption {
	return grpc.WithContextDialer(func(ctx context.Context, addr string) (net.Conn, error) {
		return c.ns.dial(addr, 20*time.Second)
	})
}

// NewConn gives an additional client connection.
func (c *Core) NewConn() (*grpc.ClientConn, pb.OpenMatchServiceClient, error) {
	conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", c.Port), c.dialer(), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return nil, nil, err
	}
	return conn, pb.NewOpenMatchServiceClient(conn), nil
}

func (c *Core) Kill() {
	c.mu.Lock()
	was := c.stopping
	c.stopping = true
	c.mu.Unlock()
	if was {
		return
	}
	select {
	case <-c.exited:
	default:
		c.cmd.Process.Kill()
		<-c.exited
	}
	if c.Conn != nil {
		c.Conn.Close()
	}
}

// Crashed says how the server ended if it ended by itself.
func (c *Core) Crashed() (string, bool) {
	select {
	case <-c.exited:
	default:
		return "", false
	}
	c.mu.Lock()
	st := c.stopping
	c.mu.Unlock()
	if st {
		return "", false
	}
	msg := fmt.Sprint(c.waitErr)
	if ee := (*exec.ExitError)(nil); errors.As(c.waitErr, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			panic(harnessErr{errors.New("the server was killed from outside (memory?)")})
		}
	}
	s := c.stderr.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	return "server process ended by itself (" + msg + "): " + head(s, 1500), true
}

func (c *Core) Alive() bool { _, d := c.Crashed(); return !d }

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------------------------------------
// match functions

type Mmf struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	Port int
	srv  *grpc.Server
	fn   func(pb.MatchMakingFunctionService_RunServer) error
}

func (m *Mmf) Run(s pb.MatchMakingFunctionService_RunServer) error { return m.fn(s) }

func (x *X) NewMmf(fn func(pb.MatchMakingFunctionService_RunServer) error, opts ...grpc.ServerOption) *Mmf {
	return x.NewMmfAt("127.0.0.1:0", fn, opts...)
}

// lowAddr is an address with a port below 1024, where that is possible.
func (x *X) lowAddr() string {
	for i := 0; i < 20; i++ {
		a := fmt.Sprintf("127.0.0.1:%d", 1+rand.IntN(1023))
		if ln, err := x.In.listen(a); err == nil {
			ln.Close()
			return a
		}
	}
	return "127.0.0.1:0"
}

func (x *X) NewMmfAt(addr string, fn func(pb.MatchMakingFunctionService_RunServer) error, opts ...grpc.ServerOption) *Mmf {
	m := &Mmf{fn: fn}
	ln, err := x.In.listen(addr)
	if err != nil && addr != "127.0.0.1:0" {
		ln, err = x.In.listen("127.0.0.1:0")
	}
	if err != nil {
		panic(harnessErr{err})
	}
	m.Port = ln.Addr().(*net.TCPAddr).Port
	m.srv = grpc.NewServer(append([]grpc.ServerOption{grpc.MaxRecvMsgSize(256 << 20)}, opts...)...)
	pb.RegisterMatchMakingFunctionServiceServer(m.srv, m)
	go m.srv.Serve(ln)
	x.Defer(m.srv.Stop)
	return m
}

func (m *Mmf) Spec(name string) *pb.MatchmakingFunctionSpec {
	return &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(m.Port), Type: pb.MatchmakingFunctionSpec_GRPC}
}

// readChunks reads the announced number of chunks (or until the stream ends).
func readChunks(s pb.MatchMakingFunctionService_RunServer) ([]*pb.ChunkedMmfRunRequest, error) {
	var out []*pb.ChunkedMmfRunRequest
	for {
		in, err := s.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, in)
		if int32(len(out)) >= in.GetNumChunks() {
			return out, nil
		}
	}
}

// Invoke runs InvokeMatchmakingFunctions to its end.
func (c *Core) Invoke(ctx context.Context, p *pb.Profile, specs ...*pb.MatchmakingFunctionSpec) ([]*pb.Match, error) {
	st, err := c.Client.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: p, Mmfs: specs})
	if err != nil {
		return nil, err
	}
	var out []*pb.Match
	for {
		r, err := st.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, r.GetMatch())
	}
}

// Querier is a match function that only records the pools it receives.
type Querier struct {
	m    *Mmf
	mu   sync.Mutex // one query at a time
	gmu  sync.Mutex
	got  [][]*pb.ChunkedMmfRunRequest
	errs []error
}

func (x *X) NewQuerier() *Querier {
	q := &Querier{}
	q.m = x.NewMmf(func(s pb.MatchMakingFunctionService_RunServer) error {
		ch, err := readChunks(s)
		q.gmu.Lock()
		q.got = append(q.got, ch)
		q.errs = append(q.errs, err)
		q.gmu.Unlock()
		return nil
	})
	return q
}

// NewQuerier makes a querier in the instance's namespace.
func (c *Core) NewQuerier() *Querier {
	x := &X{In: c.ns}
	q := x.NewQuerier()
	c.x.Defer(x.Close)
	return q
}

// Pools asks the server for the participants of the given pools.
func (q *Querier) Pools(c *Core, pools map[string]*pb.Pool) (map[string][]*pb.Ticket, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.gmu.Lock()
	q.got, q.errs = nil, nil
	q.gmu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), c.x.T(40*time.Second))
	defer cancel()
	_, err := c.Invoke(ctx, &pb.Profile{Name: "query", Pools: pools}, q.m.Spec("query"))
	if msg, dead := c.CrashedSoon(err); dead {
		return nil, errCrash{msg}
	}
	if err != nil {
		return nil, fmt.Errorf("invocation failed: %w", err)
	}
	q.gmu.Lock()
	defer q.gmu.Unlock()
	if len(q.got) != 1 {
		return nil, fmt.Errorf("the match function was called %d times instead of once", len(q.got))
	}
	if q.errs[0] != nil {
		return nil, fmt.Errorf("the match function could not read its request: %v", q.errs[0])
	}
	out := map[string][]*pb.Ticket{}
	for _, ch := range q.got[0] {
		for name, p := range ch.GetProfile().GetPools() {
			out[name] = append(out[name], p.GetParticipants().GetTickets()...)
		}
	}
	return out, nil
}

type errCrash struct{ msg string }

func (e errCrash) Error() string { return e.msg }

// CrashedSoon: when a call failed with Unavailable, gives the process a moment to be reaped.
func (c *Core) CrashedSoon(err error) (string, bool) {
	if err != nil && status.Code(err) == codes.Unavailable {
		select {
		case <-c.exited:
		case <-time.After(2 * time.Second):
		}
	}
	return c.Crashed()
}

func (c *Core) querier() *Querier {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.q == nil {
		c.q = c.NewQuerier()
	}
	return c.q
}

// Query asks for pools with the instance's own querier.
func (c *Core) Query(pools map[string]*pb.Pool) (map[string][]*pb.Ticket, error) {
	return c.querier().Pools(c, pools)
}

const syncTag = "__vh_sync"

// Sync returns when the instance has applied everything that was in state storage when Sync was
// called and has completed at least one full cache update cycle since.
func (c *Core) Sync() error {
	for i := 0; i < 2; i++ {
		if err := c.sync1(c.x.T(30 * time.Second)); err != nil {
			return err
		}
	}
	return nil
}

func (c *Core) sync1(timeout time.Duration) error {
	c.mu.Lock()
	c.syncN++
	tag := fmt.Sprintf("%s%d", syncTag, c.syncN)
	c.mu.Unlock()
	tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{syncTag, tag}, CreationTime: tsNow()}}
	var id string
	if c.Redis != nil {
		tk.ExpirationTime = tsAt(time.Now().Add(2 * time.Hour))
		id = c.Redis.Add("ticket", string(mustMarshal(tk)))
		c.Redis.Add("activate", id)
	} else {
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		defer cancel()
		r, err := c.Client.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: tk})
		if err == nil {
			id = r.GetTicketId()
			_, err = c.Client.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
		}
		if err != nil {
			if m, d := c.CrashedSoon(err); d {
				return errCrash{m}
			}
			return fmt.Errorf("creating and activating a ticket failed: %w", err)
		}
	}
	c.mu.Lock()
	c.SyncIDs[id] = true
	c.mu.Unlock()
	end := time.Now().Add(timeout)
	for {
		p, err := c.Query(map[string]*pb.Pool{"s": {TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}}}})
		if err != nil {
			return err
		}
		for _, t := range p["s"] {
			if t.GetId() == id {
				return nil
			}
		}
		if time.Now().After(end) {
			return fmt.Errorf("an activated ticket (%s) did not show up in its pool within %v", id, timeout)
		}
		time.Sleep(time.Millisecond)
	}
}

// IsSync tells whether a ticket is one of the harness's sentinels.
func (c *Core) IsSync(t *pb.Ticket) bool {
	for _, x := range t.GetAttributes().GetTags() {
		if x == syncTag {
			return true
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.SyncIDs[t.GetId()]
}

func rpcCtx(x *X) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), x.T(30*time.Second))
}

// Goroutines reads the goroutine dump of the server (debug endpoint in core/main.go).
func (c *Core) httpGet(url string) ([]byte, error) {
	var b bytes.Buffer
	resp, err := httpClient.Get(url)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	_, err = io.Copy(&b, resp.Body)
	return b.Bytes(), err
}
