package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// FakeRedis implements the subset of Redis the system uses (streams, AUTH, PING, MULTI) with
// hooks for fault injection and a complete log of what was stored.

type Entry struct {
	MS, Seq uint64
	Fields  []string
	Conn    int64 // 0: appended by the harness
	At      time.Time
}

func (e *Entry) ID() string { return fmt.Sprintf("%d-%d", e.MS, e.Seq) }

type Role int

const (
	RoleRW Role = iota
	RoleWrite
	RoleRead
)

type ActKind int

const (
	ActNone       ActKind = iota
	ActErr                // reply with an error, command not executed
	ActDropBefore         // close the connection, command not executed
	ActDropAfter          // execute, then close the connection without replying
	ActPartial            // execute, send half of the reply, close
	ActHang               // do not execute; keep the connection open without replying until Release or close
	ActReset              // reset the connection (RST), command not executed
	ActGarbage            // send something that is no reply, then close; command not executed
)

type Action struct {
	Kind ActKind
	Msg  string
}

type Cmd struct {
	L        *listener
	Conn     int64
	Role     Role
	Args     []string
	Name     string
	Pipeline int // number of XADDs on this connection since its last XTRIM
}

type Trim struct {
	MinMS   uint64
	Raw     string
	At      time.Time
	Removed int
	Batch   int // XADDs executed on this connection since the previous trim
	Conn    int64
}

type listener struct {
	role  Role
	addr  string
	ln    net.Listener
	ns    *NetNS
	conns map[int64]net.Conn
	open  int
	peak  int
	total int
	mode  string // "", "down", "closing"
	auths [][]string
	cmds  map[string]int
}

type FakeRedis struct {
	mu       sync.Mutex
	streams  map[string][]*Entry
	lastMS   uint64
	lastSeq  uint64
	notify   chan struct{}
	Log      []*Entry // every entry ever added to om-replication, in order
	MaxLen   int      // the latest limit given for the length of a stream (0: none)
	Trims    []Trim
	XReads   []XRead
	Hook     func(c *Cmd) Action
	Offset   time.Duration // server clock - real clock
	User     string
	Pass     string
	ls       []*listener
	nextConn int64
	hang     chan struct{}
	closed   bool
	Batches  []int // XADDs between trims, in order of completion
}

type XRead struct{ Count, Block, From string }

const streamKey = "om-replication"

func NewFakeRedis() *FakeRedis {
	return &FakeRedis{streams: map[string][]*Entry{}, notify: make(chan struct{}), hang: make(chan struct{})}
}

func (r *FakeRedis) Listen(addr string, role Role) (*listener, error) {
	return r.ListenIn(nil, addr, role)
}

func (r *FakeRedis) ListenIn(ns *NetNS, addr string, role Role) (*listener, error) {
	l := &listener{role: role, ns: ns, addr: addr, conns: map[int64]net.Conn{}, cmds: map[string]int{}}
	var ln net.Listener
	var err error
	if strings.HasSuffix(addr, ":0") {
		// a port below the ephemeral range, so that nobody takes it while the listener is down
		for i := 0; i < 200; i++ {
			if ln, err = ns.listen(strings.TrimSuffix(addr, "0") + strconv.Itoa(nextPort())); err == nil {
				break
			}
		}
	} else {
		ln, err = ns.listen(addr)
	}
	if err != nil {
		return nil, err
	}
	l.ln = ln
	l.addr = ln.Addr().String()
	r.mu.Lock()
	r.ls = append(r.ls, l)
	r.mu.Unlock()
	go r.accept(l, ln)
	return l, nil
}

func (r *FakeRedis) accept(l *listener, ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		r.mu.Lock()
		if l.mode == "closing" || r.closed {
			r.mu.Unlock()
			c.Close()
			continue
		}
		r.nextConn++
		id := r.nextConn
		l.conns[id] = c
		l.open++
		l.total++
		if l.open > l.peak {
			l.peak = l.open
		}
		r.mu.Unlock()
		go r.serve(l, id, c)
	}
}

// Down takes a listener down. mode "down": connections refused; "closing": accepted and closed at once.
func (r *FakeRedis) Down(l *listener, mode string) {
	r.mu.Lock()
	l.mode = mode
	var cs []net.Conn
	for _, c := range l.conns {
		cs = append(cs, c)
	}
	ln := l.ln
	r.mu.Unlock()
	if mode == "down" && ln != nil {
		ln.Close()
	}
	for _, c := range cs {
		c.Close()
	}
}

func (r *FakeRedis) Up(l *listener) error {
	r.mu.Lock()
	was := l.mode
	l.mode = ""
	r.mu.Unlock()
	if was == "down" {
		var ln net.Listener
		var err error
		for i := 0; i < 200; i++ {
			ln, err = l.ns.listen(l.addr)
			if err == nil {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		if err != nil {
			return err
		}
		r.mu.Lock()
		l.ln = ln
		r.mu.Unlock()
		go r.accept(l, ln)
	}
	return nil
}

// DropConns closes the open connections of a listener.
func (r *FakeRedis) DropConns(l *listener) {
	r.mu.Lock()
	var cs []net.Conn
	for _, c := range l.conns {
		cs = append(cs, c)
	}
	r.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
}

// ReleaseHang closes the connections that hang.
func (r *FakeRedis) ReleaseHang() {
	r.mu.Lock()
	close(r.hang)
	r.hang = make(chan struct{})
	r.mu.Unlock()
}

func (r *FakeRedis) SetHook(h func(c *Cmd) Action) {
	r.mu.Lock()
	r.Hook = h
	r.mu.Unlock()
}

func (r *FakeRedis) Close() {
	r.mu.Lock()
	r.closed = true
	ls := append([]*listener(nil), r.ls...)
	close(r.hang)
	r.hang = make(chan struct{})
	r.mu.Unlock()
	for _, l := range ls {
		if l.ln != nil {
			l.ln.Close()
		}
		r.DropConns(l)
	}
}

func (r *FakeRedis) ConnStats(l *listener) (open, peak, total int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return l.open, l.peak, l.total
}

func (r *FakeRedis) Counts(l *listener) map[string]int {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := map[string]int{}
	for k, v := range l.cmds {
		out[k] = v
	}
	return out
}

func (r *FakeRedis) Auths(l *listener) [][]string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([][]string(nil), l.auths...)
}

func (r *FakeRedis) LogCopy() []*Entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*Entry(nil), r.Log...)
}

func (r *FakeRedis) LogLen() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Log)
}

func (r *FakeRedis) Stored() []*Entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*Entry(nil), r.streams[streamKey]...)
}

func (r *FakeRedis) TrimsCopy() []Trim {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Trim(nil), r.Trims...)
}

func (r *FakeRedis) XReadsCopy() []XRead {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]XRead(nil), r.XReads...)
}

func (r *FakeRedis) nowMS() uint64 { return uint64(time.Now().Add(r.Offset).UnixMilli()) }

// append adds an entry; ms==0 means now. r.mu held.
func (r *FakeRedis) append(key string, ms, seq uint64, explicit bool, fields []string, conn int64) (*Entry, error) {
	if !explicit {
		ms = r.nowMS()
		if ms <= r.lastMS {
			ms, seq = r.lastMS, r.lastSeq+1
		} else {
			seq = 0
		}
	} else if ms < r.lastMS || (ms == r.lastMS && seq <= r.lastSeq) {
		return nil, errors.New("ERR The ID specified in XADD is equal or smaller than the target stream top item")
	}
	e := &Entry{MS: ms, Seq: seq, Fields: fields, Conn: conn, At: time.Now()}
	r.lastMS, r.lastSeq = ms, seq
	r.streams[key] = append(r.streams[key], e)
	if key == streamKey {
		r.Log = append(r.Log, e)
	}
	close(r.notify)
	r.notify = make(chan struct{})
	return e, nil
}

// Add appends an entry on behalf of the harness ("another instance") and returns its id.
func (r *FakeRedis) Add(fields ...string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	e, _ := r.append(streamKey, 0, 0, false, fields, 0)
	return e.ID()
}

// AddAt appends an entry with an explicit time in ms; the sequence number is chosen.
func (r *FakeRedis) AddAt(ms uint64, fields ...string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var seq uint64
	if ms <= r.lastMS {
		ms = r.lastMS
		seq = r.lastSeq + 1
	}
	e, err := r.append(streamKey, ms, seq, true, fields, 0)
	if err != nil {
		panic(err)
	}
	return e.ID()
}

// Preload appends many entries at once without copying costs per waiter.
func (r *FakeRedis) Preload(ms uint64, entries [][]string) []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	ids := make([]string, 0, len(entries))
	for _, f := range entries {
		var seq uint64
		m := ms
		if m <= r.lastMS {
			m = r.lastMS
			seq = r.lastSeq + 1
		}
		e := &Entry{MS: m, Seq: seq, Fields: f, At: time.Now()}
		r.lastMS, r.lastSeq = m, seq
		r.streams[streamKey] = append(r.streams[streamKey], e)
		r.Log = append(r.Log, e)
		ids = append(ids, e.ID())
	}
	close(r.notify)
	r.notify = make(chan struct{})
	return ids
}

func parseID(s string, defSeq uint64) (ms, seq uint64, err error) {
	a, b, ok := strings.Cut(s, "-")
	ms, err = strconv.ParseUint(a, 10, 64)
	if err != nil {
		return
	}
	seq = defSeq
	if ok {
		seq, err = strconv.ParseUint(b, 10, 64)
	}
	return
}

func less(am, as, bm, bs uint64) bool { return am < bm || (am == bm && as < bs) }

// reply values: string (bulk), simpleStr, respErr, int64, nil (null array), []any
type simpleStr string
type respErr string

func encode(sb *strings.Builder, v any) {
	switch t := v.(type) {
	case nil:
		sb.WriteString("*-1\r\n")
	case string:
		fmt.Fprintf(sb, "$%d\r\n", len(t))
		sb.WriteString(t)
		sb.WriteString("\r\n")
	case simpleStr:
		sb.WriteString("+" + string(t) + "\r\n")
	case respErr:
		sb.WriteString("-" + string(t) + "\r\n")
	case int:
		fmt.Fprintf(sb, ":%d\r\n", t)
	case []any:
		fmt.Fprintf(sb, "*%d\r\n", len(t))
		for _, x := range t {
			encode(sb, x)
		}
	default:
		panic(fmt.Sprintf("encode %T", v))
	}
}

func readCmd(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1<<20 {
		return nil, errors.New("protocol error")
	}
	out := make([]string, n)
	for i := range out {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimRight(l, "\r\n")
		if len(l) == 0 || l[0] != '$' {
			return nil, errors.New("protocol error")
		}
		k, err := strconv.Atoi(l[1:])
		if err != nil || k < 0 {
			return nil, errors.New("protocol error")
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:k])
	}
	return out, nil
}

func (r *FakeRedis) serve(l *listener, id int64, c net.Conn) {
	defer func() {
		c.Close()
		r.mu.Lock()
		if _, ok := l.conns[id]; ok {
			delete(l.conns, id)
			l.open--
		}
		r.mu.Unlock()
	}()
	br := bufio.NewReaderSize(c, 1<<16)
	authed := r.Pass == ""
	batch := 0
	var multi [][]string
	inMulti := false
	var sb strings.Builder
	flush := func() error {
		_, err := io.WriteString(c, sb.String())
		sb.Reset()
		return err
	}
	for {
		args, err := readCmd(br)
		if err != nil {
			flush()
			return
		}
		if len(args) == 0 {
			continue
		}
		name := strings.ToUpper(args[0])
		r.mu.Lock()
		l.cmds[name]++
		hook := r.Hook
		hang := r.hang
		r.mu.Unlock()
		act := Action{}
		if hook != nil {
			act = hook(&Cmd{L: l, Conn: id, Role: l.role, Args: args, Name: name, Pipeline: batch})
		}
		switch act.Kind {
		case ActErr:
			encode(&sb, respErr(act.Msg))
			if name == "XTRIM" {
				batch = 0
			}
			if br.Buffered() == 0 {
				if flush() != nil {
					return
				}
			}
			continue
		case ActDropBefore:
			flush()
			return
		case ActHang:
			flush()
			<-hang
			return
		case ActReset:
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			return
		case ActGarbage:
			sb.WriteString("HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n")
			flush()
			return
		}
		var v any
		switch name {
		case "AUTH":
			r.mu.Lock()
			l.auths = append(l.auths, append([]string(nil), args[1:]...))
			r.mu.Unlock()
			u, p := "default", ""
			if len(args) == 2 {
				p = args[1]
			} else if len(args) == 3 {
				u, p = args[1], args[2]
			}
			if r.Pass != "" && (u != r.User || p != r.Pass) {
				v = respErr("WRONGPASS invalid username-password pair or user is disabled.")
			} else {
				authed = true
				v = simpleStr("OK")
			}
		case "MULTI":
			inMulti, multi = true, nil
			v = simpleStr("OK")
		case "EXEC":
			inMulti = false
			res := []any{}
			for _, m := range multi {
				res = append(res, r.exec(l, id, m, &batch, c, nil))
			}
			v = res
		case "DISCARD":
			inMulti = false
			v = simpleStr("OK")
		default:
			if !authed {
				v = respErr("NOAUTH Authentication required.")
			} else if inMulti {
				multi = append(multi, args)
				v = simpleStr("QUEUED")
			} else {
				if name == "XREAD" {
					if flush() != nil { // may block: send earlier replies first
						return
					}
				}
				v = r.exec(l, id, args, &batch, c, br)
				if _, gone := v.(goneT); gone {
					return
				}
			}
		}
		switch act.Kind {
		case ActDropAfter:
			flush()
			return
		case ActPartial:
			if flush() != nil {
				return
			}
			encode(&sb, v)
			s := sb.String()
			sb.Reset()
			io.WriteString(c, s[:len(s)/2])
			return
		}
		encode(&sb, v)
		if br.Buffered() == 0 || sb.Len() > 1<<16 {
			if flush() != nil {
				return
			}
		}
	}
}

type goneT struct{}

func entryReply(e *Entry) any {
	f := make([]any, len(e.Fields))
	for i, x := range e.Fields {
		f[i] = x
	}
	return []any{e.ID(), f}
}

func (r *FakeRedis) exec(l *listener, conn int64, args []string, batch *int, c net.Conn, br *bufio.Reader) any {
	name := strings.ToUpper(args[0])
	wrongArgs := respErr("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command")
	switch name {
	case "PING":
		return simpleStr("PONG")
	case "SELECT", "CLIENT":
		return simpleStr("OK")
	case "XADD":
		if len(args) < 5 {
			return wrongArgs
		}
		key := args[1]
		i := 2
		var minid string
		maxlen := -1
		for i < len(args) {
			o := strings.ToUpper(args[i])
			if o == "NOMKSTREAM" {
				i++
				continue
			}
			if (o == "MINID" || o == "MAXLEN") && i+1 < len(args) {
				i++
				if args[i] == "=" || args[i] == "~" {
					i++
				}
				if i < len(args) {
					if o == "MINID" {
						minid = args[i]
					} else {
						maxlen, _ = strconv.Atoi(args[i])
					}
					i++
				}
				if i < len(args) && strings.ToUpper(args[i]) == "LIMIT" {
					i += 2
				}
				continue
			}
			break
		}
		if i >= len(args) {
			return wrongArgs
		}
		id := args[i]
		fields := args[i+1:]
		if len(fields) == 0 || len(fields)%2 != 0 {
			return wrongArgs
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		var e *Entry
		var err error
		if id == "*" {
			e, err = r.append(key, 0, 0, false, fields, conn)
		} else {
			ms, seq, perr := parseID(id, 0)
			if perr != nil {
				return respErr("ERR Invalid stream ID specified as stream command argument")
			}
			e, err = r.append(key, ms, seq, true, fields, conn)
		}
		if err != nil {
			return respErr(err.Error())
		}
		*batch++
		if minid != "" {
			ms, seq, perr := parseID(minid, 0)
			if perr == nil {
				n := r.trimMin(key, ms, seq)
				r.Trims = append(r.Trims, Trim{MinMS: ms, Raw: minid, At: time.Now(), Removed: n, Batch: *batch, Conn: conn})
			}
		}
		if maxlen >= 0 {
			r.MaxLen = maxlen
			s := r.streams[key]
			if len(s) > maxlen {
				r.streams[key] = s[len(s)-maxlen:]
			}
		}
		return e.ID()
	case "XTRIM":
		if len(args) < 4 {
			return wrongArgs
		}
		kind := strings.ToUpper(args[2])
		j := 3
		approx := false
		if args[j] == "~" || args[j] == "=" {
			approx = args[j] == "~"
			j++
		}
		if j >= len(args) {
			return wrongArgs
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		key := args[1]
		before := len(r.streams[key])
		switch kind {
		case "MINID":
			ms, seq, err := parseID(args[j], 0)
			if err != nil {
				return respErr("ERR Invalid stream ID specified as stream command argument")
			}
			if approx {
				// whole radix tree nodes only (100 entries by default)
				s := r.streams[key]
				k := 0
				for k < len(s) && less(s[k].MS, s[k].Seq, ms, seq) {
					k++
				}
				r.streams[key] = s[k/100*100:]
			} else {
				r.trimMin(key, ms, seq)
			}
			n := before - len(r.streams[key])
			if key == streamKey {
				r.Trims = append(r.Trims, Trim{MinMS: ms, Raw: args[j], At: time.Now(), Removed: n, Batch: *batch, Conn: conn})
				r.Batches = append(r.Batches, *batch)
			}
			*batch = 0
			return n
		case "MAXLEN":
			n, err := strconv.Atoi(args[j])
			if err != nil {
				return respErr("ERR value is not an integer or out of range")
			}
			r.MaxLen = n
			s := r.streams[key]
			if len(s) > n {
				r.streams[key] = s[len(s)-n:]
			}
			*batch = 0
			return before - len(r.streams[key])
		}
		return respErr("ERR syntax error")
	case "XLEN":
		r.mu.Lock()
		defer r.mu.Unlock()
		return len(r.streams[args[1]])
	case "XRANGE":
		if len(args) < 4 {
			return wrongArgs
		}
		return r.xrange(args)
	case "XREAD":
		return r.xread(args, c, br)
	}
	return respErr("ERR unknown command '" + args[0] + "'")
}

func (r *FakeRedis) trimMin(key string, ms, seq uint64) int {
	s := r.streams[key]
	k := 0
	for k < len(s) && less(s[k].MS, s[k].Seq, ms, seq) {
		k++
	}
	r.streams[key] = s[k:]
	return k
}

func (r *FakeRedis) xrange(args []string) any {
	excl := strings.HasPrefix(args[2], "(")
	lo := strings.TrimPrefix(args[2], "(")
	var ms, seq uint64
	if lo != "-" {
		ms, seq, _ = parseID(lo, 0)
	}
	var hm, hs uint64 = 1<<64 - 1, 1<<64 - 1
	if args[3] != "+" {
		hm, hs, _ = parseID(args[3], 1<<64-1)
	}
	count := 1 << 30
	if len(args) >= 6 && strings.ToUpper(args[4]) == "COUNT" {
		count, _ = strconv.Atoi(args[5])
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	out := []any{}
	for _, e := range r.streams[args[1]] {
		if less(e.MS, e.Seq, ms, seq) || (excl && e.MS == ms && e.Seq == seq) || less(hm, hs, e.MS, e.Seq) {
			continue
		}
		if len(out) >= count {
			break
		}
		out = append(out, entryReply(e))
	}
	return out
}

func (r *FakeRedis) xread(args []string, c net.Conn, br *bufio.Reader) any {
	count := 1 << 30
	block := -1
	i := 1
	for i < len(args) {
		switch strings.ToUpper(args[i]) {
		case "COUNT":
			if i+1 >= len(args) {
				return respErr("ERR syntax error")
			}
			n, err := strconv.Atoi(args[i+1])
			if err != nil {
				return respErr("ERR value is not an integer or out of range")
			}
			if n > 0 {
				count = n
			}
			i += 2
			continue
		case "BLOCK":
			if i+1 >= len(args) {
				return respErr("ERR syntax error")
			}
			n, err := strconv.Atoi(args[i+1])
			if err != nil || n < 0 {
				return respErr("ERR timeout is not an integer or out of range")
			}
			block = n
			i += 2
			continue
		case "STREAMS":
			i++
		default:
			return respErr("ERR syntax error")
		}
		break
	}
	if len(args)-i != 2 {
		return respErr("ERR Unbalanced XREAD list of streams: for each stream key an ID or '$' must be specified.")
	}
	key, from := args[i], args[i+1]
	r.mu.Lock()
	if len(r.XReads) < 5000 {
		x := XRead{From: from}
		for k := 1; k < i; k++ {
			switch strings.ToUpper(args[k]) {
			case "COUNT":
				x.Count = args[k+1]
			case "BLOCK":
				x.Block = args[k+1]
			}
		}
		r.XReads = append(r.XReads, x)
	}
	var ms, seq uint64
	if from == "$" {
		ms, seq = r.lastMS, r.lastSeq
	} else {
		var err error
		ms, seq, err = parseID(from, 0)
		if err != nil {
			r.mu.Unlock()
			return respErr("ERR Invalid stream ID specified as stream command argument")
		}
	}
	r.mu.Unlock()
	var timeout <-chan time.Time
	if block > 0 {
		t := time.NewTimer(time.Duration(block) * time.Millisecond)
		defer t.Stop()
		timeout = t.C
	}
	for {
		r.mu.Lock()
		s := r.streams[key]
		// binary search for the first entry > (ms,seq)
		lo, hi := 0, len(s)
		for lo < hi {
			m := (lo + hi) / 2
			if less(ms, seq, s[m].MS, s[m].Seq) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		end := len(s)
		if end-lo > count {
			end = lo + count
		}
		sel := s[lo:end]
		ch := r.notify
		closed := r.closed
		r.mu.Unlock()
		if len(sel) > 0 {
			es := make([]any, len(sel))
			for k, e := range sel {
				es[k] = entryReply(e)
			}
			return []any{[]any{key, es}}
		}
		if block < 0 || closed {
			return nil
		}
		select {
		case <-ch:
		case <-timeout:
			return nil
		case <-time.After(2 * time.Second):
			r.mu.Lock()
			closed := r.closed
			r.mu.Unlock()
			if closed {
				return goneT{}
			}
		}
	}
}
