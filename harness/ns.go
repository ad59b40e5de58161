package main

import (
	"fmt"
	"net"
	"os/exec"
	"runtime"
	"syscall"
	"time"
)

func nsProbe() int {
	ln, err := net.Listen("tcp", "127.0.0.1:58081")
	if err != nil {
		return 1
	}
	defer ln.Close()
	c, err := net.Dial("tcp", "127.0.0.1:58081")
	if err != nil {
		return 1
	}
	c.Close()
	return 0
}

// NetNS is a further network namespace (an instance binds fixed ports, so every further instance
// needs its own). A locked OS thread lives in it; sockets made on that thread belong to it, as do
// processes started from it. A nil *NetNS is the process's own namespace.
type NetNS struct {
	ch chan func()
}

// NewNetNS needs the shard to be root in its user namespace (X.NS).
func (x *X) NewNetNS() *NetNS {
	n := &NetNS{ch: make(chan func())}
	errc := make(chan error)
	go func() {
		runtime.LockOSThread() // never unlocked: the thread ends with the goroutine
		if err := syscall.Unshare(syscall.CLONE_NEWNET); err != nil {
			errc <- err
			return
		}
		loUp()
		errc <- nil
		for f := range n.ch {
			f()
		}
	}()
	if err := <-errc; err != nil {
		panic(harnessErr{fmt.Errorf("network namespace: %w", err)})
	}
	x.Defer(func() { close(n.ch) })
	return n
}

func (n *NetNS) do(f func()) {
	if n == nil {
		f()
		return
	}
	done := make(chan struct{})
	n.ch <- func() { defer close(done); f() }
	<-done
}

func (n *NetNS) listen(addr string) (ln net.Listener, err error) {
	n.do(func() { ln, err = net.Listen("tcp", addr) })
	return
}

func (n *NetNS) dial(addr string, d time.Duration) (c net.Conn, err error) {
	n.do(func() { c, err = net.DialTimeout("tcp", addr, d) })
	return
}

func (n *NetNS) start(cmd *exec.Cmd) (err error) {
	n.do(func() { err = cmd.Start() })
	return
}
