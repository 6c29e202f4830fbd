//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The process started with every kind of address to listen on, and which
// sockets of this machine (a network namespace of the driver's own, or
// loopback) it then answers on.

func localAddrs() []netip.Addr {
	l := []netip.Addr{netip.MustParseAddr("127.0.0.1"), netip.MustParseAddr("127.0.0.9")}
	if haveV6() {
		l = append(l, netip.IPv6Loopback())
	}
	ifs, _ := net.InterfaceAddrs()
	for _, a := range ifs {
		n, ok := a.(*net.IPNet)
		if !ok {
			continue
		}
		ip, _ := netip.AddrFromSlice(n.IP)
		ip = ip.Unmap()
		// those a socket can be bound to without naming an interface
		if !ip.IsLoopback() && (ip.Is4() || !ip.IsLinkLocalUnicast()) {
			if u, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip.AsSlice()}); err == nil {
				u.Close()
				l = append(l, ip)
			}
		}
	}
	return l
}

func tcpBeat(ip netip.Addr, port int, path string) bool {
	c, err := net.DialTimeout("tcp", netip.AddrPortFrom(ip, uint16(port)).String(), 5*time.Second)
	if err != nil {
		return false
	}
	defer c.Close()
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", path)
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, 4096)
	n, _ := c.Read(b)
	return bytes.HasPrefix(b[:n], []byte("HTTP/1.1 200"))
}

func udpBeat(ip netip.Addr, port int) bool {
	to := &net.UDPAddr{IP: ip.AsSlice(), Port: port}
	b := make([]byte, 16)
	try := func(write func() error, read func() (int, error)) (yes, no bool) {
		if err := write(); err != nil {
			return false, true
		}
		n, err := read()
		if err != nil {
			return false, strings.Contains(err.Error(), "refused")
		}
		return n == 1 && b[0] == 0xff, false
	}
	// a connected socket learns that nobody is there
	c, err := net.DialUDP("udp", nil, to)
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
	yes, no := try(func() error { _, err := c.Write(heartbeat); return err }, func() (int, error) { return c.Read(b) })
	if yes || no {
		return yes
	}
	// an open one takes the answer from whichever address the system sends it
	// from: a server on all addresses may answer from another of this machine
	u, err := net.ListenUDP("udp", nil)
	if err != nil {
		return false
	}
	defer u.Close()
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); {
		u.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		if yes, _ := try(func() error { _, err := u.WriteTo(heartbeat, to); return err }, func() (int, error) { n, _, err := u.ReadFrom(b); return n, err }); yes {
			return true
		}
	}
	return false
}

// listeners are the sockets a process waits on for others to come.
func listeners(pid int) []M {
	inodes := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, f := range fds {
		if t, err := os.Readlink(f); err == nil && strings.HasPrefix(t, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(t, "socket:["), "]")] = true
		}
	}
	l := []M{}
	for _, k := range []string{"tcp", "tcp6", "udp", "udp6"} {
		f, err := os.Open(fmt.Sprintf("/proc/%d/net/%s", pid, k))
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			w := strings.Fields(sc.Text())
			if len(w) < 10 || !inodes[w[9]] || (k[:3] == "tcp" && w[3] != "0A") || (k[:3] == "udp" && w[3] != "07") {
				continue
			}
			a := strings.Split(w[1], ":")
			port, _ := strconv.ParseInt(a[1], 16, 32)
			raw, _ := hex.DecodeString(a[0])
			for i := 0; i+4 <= len(raw); i += 4 { // words in the machine's order
				raw[i], raw[i+1], raw[i+2], raw[i+3] = raw[i+3], raw[i+2], raw[i+1], raw[i]
			}
			ip, _ := netip.AddrFromSlice(raw)
			l = append(l, M{"proto": k[:3], "ip": ints(ip.Unmap().AsSlice()), "port": port})
		}
		f.Close()
	}
	return l
}

func (p *Proc) binds(n, part, parts, off int) {
	g := p.g
	local := localAddrs()
	var ls [][]int
	for _, a := range local {
		ls = append(ls, ints(a.AsSlice()))
	}
	p.t.add(M{"e": "machine", "addrs": ls})
	// every combination of what the settings may say, in some order, then others at random
	type conf struct {
		http     string
		hip, uip string
		udp      bool
		pprof    bool
		held     string
	}
	kinds := []string{"", "0.0.0.0", "v4", "203.0.113.77"} // the last one is nobody's here
	if p.v6 {
		kinds = append(kinds, "::", "v6")
	}
	text := func(k string) string {
		switch k {
		case "v4", "v6":
			for {
				a := local[g.Intn(len(local))]
				if a.Is4() && k == "v4" {
					return a.String()
				}
				if a.Is6() && k == "v6" {
					if g.p(0.2) {
						return a.StringExpanded()
					}
					return a.String()
				}
			}
		}
		return k
	}
	var all []conf
	for _, h := range []string{"enabled", "info", "disabled"} {
		for _, hip := range kinds {
			if h == "disabled" && hip != "v4" {
				continue
			}
			for _, udp := range []bool{true, false} {
				for _, uip := range kinds {
					if !udp && uip != "v4" {
						continue
					}
					for _, pprof := range []bool{true, false} {
						for _, held := range []string{"", "http", "udp", "pprof"} {
							if held == "udp" && !udp || held == "pprof" && !pprof || held == "http" && h == "disabled" {
								continue
							}
							all = append(all, conf{h, hip, uip, udp, pprof, held})
						}
					}
				}
			}
		}
	}
	// the same order in every part
	rand.New(rand.NewSource(int64(len(all)))).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for i := part; n > 0 && i < len(all); i, n = i+parts, n-1 {
		x := all[(i+off)%len(all)]
		p.pick()
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		p.thr = 1 + g.Intn(3)
		p.reset(c)
		p.http, p.udpOn = x.http, x.udp
		p.file = false
		p.uport, p.hport = freePort(), freePort()
		if g.p(0.3) {
			p.hport = p.uport // as it is by default
		}
		pprof := 0
		if x.pprof {
			pprof = freePort()
		}
		hip, uip := text(x.hip), text(x.uip)
		p.env = map[string]string{"TRAKX_DEBUG_PPROF": strconv.Itoa(pprof), "TRAKX_EXPVARINTERVAL": []string{"0s", "1s"}[g.Intn(2)]}
		if hip != "" {
			p.env["TRAKX_HTTP_IP"] = hip
		}
		if uip != "" {
			p.env["TRAKX_UDP_IP"] = uip
		}
		// somebody else may have one of the ports
		var taken []func()
		th, tu, tp := "", "", ""
		if x.held == "http" { // all of it, so that it does not matter which address is asked for
			if c, err := net.Listen("tcp", fmt.Sprintf(":%d", p.hport)); err == nil {
				taken, th = append(taken, func() { c.Close() }), "held"
			}
		} else if x.held == "udp" {
			if c, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p.uport)); err == nil {
				taken, tu = append(taken, func() { c.Close() }), "held"
			}
		}
		if x.held == "pprof" {
			if c, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", pprof)); err == nil {
				taken, tp = append(taken, func() { c.Close() }), "held"
			}
		}
		p.launch()
		// settled: dead, or everything it may be waiting on answers, or nothing new for a while
		end := time.Now().Add(20 * time.Second)
		var was string
		still := time.Now()
		for time.Now().Before(end) && !p.isDead() {
			s := fmt.Sprint(listeners(p.pid))
			if s != was {
				was, still = s, time.Now()
			}
			quiet := 5 * time.Second
			if p.listening(pprof, th+foreign(hip), tu+foreign(uip), tp, listeners(p.pid)) {
				quiet = 250 * time.Millisecond
			}
			if time.Since(still) > quiet {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		dead := p.isDead()
		e := M{"e": "bind", "http": p.http, "udp": p.udpOn, "hip": ints([]byte(hip)), "uip": ints([]byte(uip)), "hport": p.hport, "uport": p.uport,
			"pprof": pprof, "heldh": th != "", "heldu": tu != "", "heldp": tp != "", "up": !dead, "reach": []M{}, "socks": []M{}}
		if !dead {
			reach := p.reached(local, pprof, th, tu, tp)
			e["reach"], e["socks"] = reach, listeners(p.pid)
			e["up"] = !p.isDead()
		} else {
			e["code"] = p.cmd.ProcessState.ExitCode()
		}
		p.t.add(e)
		if !dead {
			p.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.Intn(2)])
			gone, code := true, -1
			select {
			case <-p.dead:
				code = p.cmd.ProcessState.ExitCode()
			case <-time.After(40 * time.Second):
				gone = false
			}
			p.slay()
			p.t.add(M{"e": "unbind", "gone": gone, "code": code, "reach": p.reached(local, pprof, th, tu, tp)})
		}
		for _, f := range taken {
			f()
		}
	}
}

// reached tries every server on every address, except those someone else holds.
func (p *Proc) reached(local []netip.Addr, pprof int, th, tu, tp string) []M {
	reach := []M{}
	for _, a := range local {
		if th == "" && tcpBeat(a, p.hport, "/heartbeat") {
			reach = append(reach, M{"on": "http", "ip": ints(a.AsSlice())})
		}
		if tu == "" && udpBeat(a, p.uport) {
			reach = append(reach, M{"on": "udp", "ip": ints(a.AsSlice())})
		}
		if tp == "" && pprof != 0 && tcpBeat(a, pprof, "/debug/vars") {
			reach = append(reach, M{"on": "pprof", "ip": ints(a.AsSlice())})
		}
	}
	return reach
}

func foreign(ip string) string {
	if ip == "203.0.113.77" {
		return "foreign"
	}
	return ""
}

// listening tells whether there is a socket for each server that is wanted; only
// how long to wait depends on it.
func (p *Proc) listening(pprof int, th, tu, tp string, l []M) bool {
	want := 0
	if p.http != "disabled" && th == "" {
		want++
	}
	if p.udpOn && tu == "" {
		want++
	}
	if pprof != 0 && tp == "" {
		want++
	}
	return len(l) >= want
}
