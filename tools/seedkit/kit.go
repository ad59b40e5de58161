package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
)

// ---- outcome ----

var cleanups []func()

func finish(code int) {
	for i := len(cleanups) - 1; i >= 0; i-- {
		cleanups[i]()
	}
	os.Exit(code)
}

// broken reports that the property does not hold.
func broken(f string, a ...any) { fmt.Printf("BROKEN: "+f+"\n", a...); finish(1) }
func fail(f string, a ...any)   { fmt.Printf("demonstration failed: "+f+"\n", a...); finish(3) }
func ok()                       { fmt.Println("ok"); finish(0) }
func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

// ---- the server ----

type Core struct {
	pb.OpenMatchServiceClient
	cmd  *exec.Cmd
	port int
	dead chan struct{}
	log  bytes.Buffer
	mu   sync.Mutex
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func (c *Core) Write(b []byte) (int, error) { c.mu.Lock(); defer c.mu.Unlock(); return c.log.Write(b) }
func (c *Core) Log() string                 { c.mu.Lock(); defer c.mu.Unlock(); return c.log.String() }

func startCore(env ...string) *Core {
	c := &Core{port: freePort(), dead: make(chan struct{})}
	c.cmd = exec.Command(os.Getenv("CORE"))
	c.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "OM_STATE_STORAGE_TYPE=memory", "OM_CACHE_IN_WAIT_TIMEOUT_MS=20",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS=10", fmt.Sprintf("PORT=%d", c.port)}, env...)
	c.cmd.Stdout, c.cmd.Stderr = c, c
	must(c.cmd.Start())
	go func() { c.cmd.Wait(); close(c.dead) }()
	cleanups = append(cleanups, c.Kill)
	for i := 0; ; i++ {
		k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", c.port))
		if err == nil {
			k.Close()
			break
		}
		if i > 1000 {
			fail("server does not start: %s", c.Log())
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.OpenMatchServiceClient = pb.NewOpenMatchServiceClient(dial(fmt.Sprintf("127.0.0.1:%d", c.port)))
	return c
}

func dial(addr string) *grpc.ClientConn {
	conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	must(err)
	return conn
}

func (c *Core) Kill() {
	c.cmd.Process.Kill()
	<-c.dead
}

func (c *Core) Alive() bool {
	select {
	case <-c.dead:
		return false
	case <-time.After(300 * time.Millisecond):
		return true
	}
}

func ctx(d time.Duration) context.Context {
	x, _ := context.WithTimeout(context.Background(), d)
	return x
}

func (c *Core) Create(t *pb.Ticket) string {
	r, err := c.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: t})
	must(err)
	return r.GetTicketId()
}

func (c *Core) Activate(ids ...string) {
	_, err := c.ActivateTickets(ctx(20*time.Second), &pb.ActivateTicketsRequest{TicketIds: ids})
	must(err)
}

func (c *Core) Deactivate(ids ...string) {
	_, err := c.DeactivateTickets(ctx(20*time.Second), &pb.DeactivateTicketsRequest{TicketIds: ids})
	must(err)
}

// Invoke runs an invocation and returns its matches.
func (c *Core) Invoke(p *pb.Profile, fns ...*pb.MatchmakingFunctionSpec) ([]*pb.Match, error) {
	s, err := c.InvokeMatchmakingFunctions(ctx(90*time.Second), &pb.MmfRequest{Profile: p, Mmfs: fns})
	if err != nil {
		return nil, err
	}
	var out []*pb.Match
	for {
		m, err := s.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, m.GetMatch())
	}
}

// Pool gives the ids of the tickets in the pool.
func (c *Core) Pool(p *pb.Pool) []string {
	var out []string
	f := newFn(func(s pb.MatchMakingFunctionService_RunServer, in []*pb.ChunkedMmfRunRequest) error {
		for _, ch := range in {
			for _, t := range ch.GetProfile().GetPools()["p"].GetParticipants().GetTickets() {
				out = append(out, t.GetId())
			}
		}
		return nil
	})
	p.Name = "p"
	_, err := c.Invoke(&pb.Profile{Name: "query", Pools: map[string]*pb.Pool{"p": p}}, f.Spec)
	must(err)
	f.srv.Stop()
	sort.Strings(out)
	return out
}

func (c *Core) All() []string { return c.Pool(&pb.Pool{}) }

func settle() { time.Sleep(400 * time.Millisecond) }

// ---- match functions ----

type Fn struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	Spec *pb.MatchmakingFunctionSpec
	run  func(pb.MatchMakingFunctionService_RunServer, []*pb.ChunkedMmfRunRequest) error
	srv  *grpc.Server
}

func (f *Fn) Run(s pb.MatchMakingFunctionService_RunServer) error {
	var in []*pb.ChunkedMmfRunRequest
	for {
		ch, err := s.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		in = append(in, ch)
		if len(in) >= int(ch.GetNumChunks()) {
			break
		}
	}
	return f.run(s, in)
}

func newFn(run func(pb.MatchMakingFunctionService_RunServer, []*pb.ChunkedMmfRunRequest) error) *Fn {
	f := &Fn{run: run, srv: grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))}
	pb.RegisterMatchMakingFunctionServiceServer(f.srv, f)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go f.srv.Serve(l)
	f.Spec = &pb.MatchmakingFunctionSpec{Name: "fn", Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}
	return f
}

func match(id string, tickets ...string) *pb.Match {
	r := &pb.Roster{Name: "r"}
	for _, t := range tickets {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: t})
	}
	return &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"r": r}}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- a state storage with streams ----

type Redis struct {
	mu      sync.Mutex
	entries []entry
	ms, seq int64
	Port    int
	Hook    func(args []string) string // a reply (error or empty); "drop" closes the connection, "reset" resets it
	Trims   []string
	Reads   [][]string
	Auths   [][]string
	Conns   int
}

type entry struct {
	ms, seq int64
	f       []string
}

func (e entry) id() string { return fmt.Sprintf("%d-%d", e.ms, e.seq) }

func newRedis() *Redis {
	r := &Redis{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	r.Port = l.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			go r.serve(k)
		}
	}()
	return r
}

func (r *Redis) Env() []string {
	return []string{"OM_STATE_STORAGE_TYPE=redis", "OM_REDIS_READ_HOST=127.0.0.1", "OM_REDIS_WRITE_HOST=127.0.0.1",
		fmt.Sprintf("OM_REDIS_READ_PORT=%d", r.Port), fmt.Sprintf("OM_REDIS_WRITE_PORT=%d", r.Port)}
}

// Add appends an entry with the given time (0: now).
func (r *Redis) Add(ms int64, f ...string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if ms == 0 {
		ms = time.Now().UnixMilli()
	}
	if ms <= r.ms {
		r.seq++
	} else {
		r.ms, r.seq = ms, 0
	}
	e := entry{r.ms, r.seq, f}
	r.entries = append(r.entries, e)
	return e.id()
}

func (r *Redis) Entries() []entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]entry(nil), r.entries...)
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func parseID(s string) (a, b int64) {
	x, y, _ := strings.Cut(s, "-")
	a, _ = strconv.ParseInt(x, 10, 64)
	b, _ = strconv.ParseInt(y, 10, 64)
	return
}

func (r *Redis) serve(k net.Conn) {
	defer k.Close()
	r.mu.Lock()
	r.Conns++
	r.mu.Unlock()
	defer func() { r.mu.Lock(); r.Conns--; r.mu.Unlock() }()
	in := bufio.NewReader(k)
	for {
		line, err := in.ReadString('\n')
		if err != nil || line[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
		args := make([]string, n)
		for i := range args {
			line, err = in.ReadString('\n')
			if err != nil {
				return
			}
			m, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
			b := make([]byte, m+2)
			if _, err = io.ReadFull(in, b); err != nil {
				return
			}
			args[i] = string(b[:m])
		}
		if r.Hook != nil {
			if rep := r.Hook(args); rep == "drop" {
				return
			} else if rep == "reset" {
				k.(*net.TCPConn).SetLinger(0)
				return
			} else if rep != "" {
				io.WriteString(k, rep)
				continue
			}
		}
		switch strings.ToUpper(args[0]) {
		case "XADD":
			io.WriteString(k, bulk(r.Add(0, args[3:]...)))
		case "XTRIM":
			min, _ := parseID(args[len(args)-1])
			r.mu.Lock()
			r.Trims = append(r.Trims, args[len(args)-1])
			n := 0
			for n < len(r.entries) && r.entries[n].ms < min {
				n++
			}
			r.entries = r.entries[n:]
			r.mu.Unlock()
			fmt.Fprintf(k, ":%d\r\n", n)
		case "XREAD": // XREAD COUNT n BLOCK ms STREAMS key id
			count, _ := strconv.Atoi(args[2])
			block, _ := strconv.Atoi(args[4])
			ms, seq := parseID(args[7])
			r.mu.Lock()
			r.Reads = append(r.Reads, args)
			r.mu.Unlock()
			end := time.Now().Add(time.Duration(block) * time.Millisecond)
			var got []entry
			for {
				got = nil
				for _, e := range r.Entries() {
					if (e.ms > ms || e.ms == ms && e.seq > seq) && len(got) < count {
						got = append(got, e)
					}
				}
				if len(got) > 0 || time.Now().After(end) {
					break
				}
				time.Sleep(2 * time.Millisecond)
			}
			if len(got) == 0 {
				io.WriteString(k, "*-1\r\n")
				break
			}
			var b strings.Builder
			fmt.Fprintf(&b, "*1\r\n*2\r\n%s*%d\r\n", bulk(args[6]), len(got))
			for _, e := range got {
				fmt.Fprintf(&b, "*2\r\n%s*%d\r\n", bulk(e.id()), len(e.f))
				for _, f := range e.f {
					b.WriteString(bulk(f))
				}
			}
			io.WriteString(k, b.String())
		case "AUTH":
			r.mu.Lock()
			r.Auths = append(r.Auths, args[1:])
			r.mu.Unlock()
			io.WriteString(k, "+OK\r\n")
		case "PING":
			io.WriteString(k, "+PONG\r\n")
		default:
			io.WriteString(k, "-ERR unknown command\r\n")
		}
	}
}
