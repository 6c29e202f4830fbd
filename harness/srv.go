//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	httpt "github.com/crimist/trakx/tracker/http"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	udpt "github.com/crimist/trakx/tracker/udp"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// Src is a UDP client socket.
type Src struct {
	name string
	c    *net.UDPConn
	ip   netip.Addr
	port int
	cur  []byte // last connection id received
	prev []byte
}

// Srv is the two servers under test and their clients.
type Srv struct {
	w          *World
	t          *Trace
	cfg        Cfg
	db         storage.Database
	udp        *udpt.UDPTracker
	http       *httpt.HTTPTracker
	now        int
	dir        string
	srcs       map[string]*Src
	order      []string
	uport      int
	hport      int
	threads    int
	readTO     time.Duration
	up         bool
	backup     bool
	v6         bool
	nadv       int
	nojump     bool
	nofence    bool
	unanswered int
	real       []string // addresses clients can have here
}

// more addresses a client may have, where the host has them
var moreAddrs = []string{"10.1.2.3", "192.168.7.7", "172.16.5.5", "169.254.3.3", "100.64.9.9", "8.8.4.4", "198.18.0.9", "1.0.0.255", "223.255.255.254",
	"2001:db8::9", "fd00::9", "fe80::9", "64:ff9b::102:304", "2002:a01:203::1", "::102:304", "2001::5:1", "2001:db8:1:2:3:4:5:6"}

// reachable lists the addresses of w that sockets can be bound to.
func (s *Srv) reachable() {
	s.real = append(s.real, s.w.in4[:5]...)
	if s.v6 {
		s.real = append(s.real, s.w.in6[0], s.w.in6[0])
	}
	for i, t := range moreAddrs {
		a := netip.MustParseAddr(t)
		n := fmt.Sprintf("k%d", i+1)
		if c, err := net.ListenUDP("udp", udpAddr(a, 0)); err == nil {
			c.Close()
			s.w.addIP(n, a)
			s.real = append(s.real, n)
		}
	}
}

// zone is where a link-local address is.
func zone(a netip.Addr) string {
	if a.IsLinkLocalUnicast() && a.Is6() {
		return "lo"
	}
	return ""
}

func udpAddr(a netip.Addr, port int) *net.UDPAddr {
	return &net.UDPAddr{IP: a.AsSlice(), Port: port, Zone: zone(a)}
}

func haveV6() bool {
	c, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback})
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func (s *Srv) bakPath() string  { return filepath.Join(s.dir, "trakx.db") }
func (s *Srv) connPath() string { return filepath.Join(s.dir, "conn.db") }

// freePort is a port nobody listens on, below those the system hands out to
// clients. Drivers that run at the same time keep it for themselves with an
// abstract socket of that name.
func freePort() int {
	for {
		p := 10000 + int(portSeq.Add(1)*7919+uint32(os.Getpid())*104729)%22000
		mine, err := net.Listen("unix", fmt.Sprintf("@trakx-verif-%d", p))
		if err != nil {
			continue
		}
		portMu.Lock()
		if ports = append(ports, mine); len(ports) > 64 {
			ports[0].Close()
			ports = ports[1:]
		}
		portMu.Unlock()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		u, err := net.ListenUDP("udp", &net.UDPAddr{Port: p})
		l.Close()
		if err == nil {
			u.Close()
			return p
		}
	}
}

var (
	portMu sync.Mutex
	ports  []net.Listener
)

var portSeq = func() *atomic.Uint32 {
	var x atomic.Uint32
	x.Store(uint32(time.Now().UnixNano() >> 10))
	return &x
}()

func zeroCounters() {
	stats.Hits.Store(0)
	stats.Connects.Store(0)
	stats.Announces.Store(0)
	stats.Scrapes.Store(0)
	stats.ClientErrors.Store(0)
	stats.ServerErrors.Store(0)
}

// start brings the servers up on the files in s.dir, the clock at s.now.
func (s *Srv) start() error {
	bt, bp := "none", ""
	if s.backup {
		bt, bp = "file", s.bakPath()
	}
	config.CachePath = s.dir + "/"
	db, err := s.cfg.open(bt, bp, s.now)
	if err != nil {
		return err
	}
	s.db = db
	conf := config.Config
	if s.readTO == 0 {
		s.readTO = 3 * time.Second
	}
	conf.HTTP.Mode = "enabled"
	conf.HTTP.IP, conf.UDP.IP = "", ""
	conf.HTTP.Timeout.Read, conf.HTTP.Timeout.Write = s.readTO, 10*time.Second
	conf.HTTP.Threads, conf.UDP.Threads = s.threads, s.threads
	conf.UDP.Enabled = true
	for try := 0; ; try++ {
		if try > 20 {
			fatalf("cannot get the servers up")
		}
		s.uport = freePort()
		s.hport = freePort()
		conf.HTTP.Port, conf.UDP.Port = s.hport, s.uport
		base := vtime.Sleepers()
		s.udp, s.http = new(udpt.UDPTracker), new(httpt.HTTPTracker)
		s.udp.Init(db)
		s.http.Init(db)
		vtime.WaitSleepers(base + 1)
		fail := make(chan error, 2)
		ut, ht := s.udp, s.http
		ue, he := make(chan error, 1), make(chan error, 1)
		go func() { err := ut.Serve(); ue <- err; fail <- err }()
		go func() { err := ht.Serve(); he <- err; fail <- err }()
		if s.ready(fail) {
			break
		}
		// the one that did come up has to go
		go func() {
			select {
			case <-ue:
			default:
				ut.Shutdown()
			}
		}()
		go func() {
			select {
			case <-he:
			default:
				ht.Shutdown()
			}
		}()
		time.Sleep(50 * time.Millisecond)
	}
	s.up = true
	zeroCounters()
	return nil
}

func (s *Srv) ready(fail chan error) bool {
	hb := append(make([]byte, 8), 0, 0, 0, 4, 0, 0, 0, 0)
	c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", s.uport))
	must(err)
	defer c.Close()
	uok, hok := false, false
	began := time.Now()
	for i := 0; i < 400 && !(uok && hok); i++ {
		select {
		case <-fail:
			return false
		default:
		}
		if !uok {
			c.Write(hb)
			c.SetReadDeadline(time.Now().Add(25 * time.Millisecond))
			b := make([]byte, 16)
			if n, err := c.Read(b); err == nil && n > 0 {
				uok = true
				// answers to the earlier tries
				for {
					c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
					if _, err := c.Read(b); err != nil {
						break
					}
				}
			} else if time.Since(began) > 2*time.Second {
				// it does not answer; that is for the trace to show if it is there
				if p, err := net.ListenPacket("udp", fmt.Sprintf(":%d", s.uport)); err != nil {
					uok = true
				} else {
					p.Close()
				}
			}
		}
		if !hok {
			h, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.hport))
			if err == nil {
				h.Write([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
				h.SetReadDeadline(time.Now().Add(2 * time.Second))
				b, _ := io.ReadAll(h)
				h.Close()
				hok = len(b) > 0 || time.Since(began) > 2*time.Second
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
	}
	return uok && hok
}

func (s *Srv) stop() {
	if !s.up {
		return
	}
	s.udp.Shutdown()
	s.http.Shutdown()
	s.up = false
}

// forget empties the database so that the global metrics are back at zero.
func (s *Srv) forget() {
	if s.db == nil {
		return
	}
	vtime.Start(clockBase.Add(secs(10_000_000)))
	s.db.Trim()
}

func (s *Srv) reset(c Cfg) {
	s.stop()
	s.forget()
	os.Remove(s.bakPath())
	os.Remove(s.connPath())
	for _, x := range s.srcs {
		x.c.Close()
	}
	s.srcs, s.order = map[string]*Src{}, nil
	s.cfg, s.now = c, 0
	must(s.start())
	s.t.add(M{"e": "reset", "cfg": s.cfg})
}

// listenAnywhere takes a port from the whole range, well known ones as well as
// those the system hands out.
func listenAnywhere(a netip.Addr) *net.UDPConn {
	for try := 0; try < 20; try++ {
		port := []int{1 + rand.Intn(1023), 1024 + rand.Intn(30000), 32768 + rand.Intn(32768), 0}[rand.Intn(4)]
		if c, err := net.ListenUDP("udp", udpAddr(a, port)); err == nil {
			return c
		}
	}
	c, err := net.ListenUDP("udp", udpAddr(a, 0))
	must(err)
	return c
}

// src is a client socket on the named address.
func (s *Srv) src(ip string, k int) *Src {
	name := fmt.Sprintf("%s#%d", ip, k)
	if x, ok := s.srcs[name]; ok {
		return x
	}
	a := s.w.ips[ip]
	c := listenAnywhere(a)
	c.SetReadBuffer(1 << 20)
	x := &Src{name: name, c: c, ip: a, port: c.LocalAddr().(*net.UDPAddr).Port}
	s.srcs[name] = x
	s.order = append(s.order, name)
	return x
}

func (s *Srv) serverAddr(x netip.Addr) *net.UDPAddr {
	if x.Is4() && x.IsLoopback() {
		return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: s.uport}
	}
	return udpAddr(x, s.uport) // the host's own address
}

var heartbeat = append(make([]byte, 8), 0, 0, 0, 4, 7, 7, 7, 7)

func isHeartbeat(d []byte) bool {
	return len(d) >= 16 && binary.BigEndian.Uint32(d[8:12]) == 4
}

func recv(x *Src, d time.Duration) []byte {
	b := make([]byte, 65536)
	x.c.SetReadDeadline(time.Now().Add(d))
	n, _, err := x.c.ReadFromUDP(b)
	if err != nil {
		return nil
	}
	return b[:n]
}

const patience = 4 * time.Second

// send sends one datagram and collects all it is answered with: a heartbeat
// sent behind it on the same socket marks the end.
func (s *Srv) send(x *Src, d []byte) [][]byte {
	x.c.WriteToUDP(d, s.serverAddr(x.ip))
	// (with more than one worker the later datagram may be answered first)
	if isHeartbeat(d) || s.nofence || s.threads > 1 {
		r := recv(x, patience)
		if r == nil {
			s.unans(x, d, nil)
			return nil
		}
		s.udpEvent(x, d, [][]byte{r})
		return [][]byte{r}
	}
	x.c.WriteToUDP(heartbeat, s.serverAddr(x.ip))
	var rs [][]byte
	for {
		r := recv(x, patience)
		if r == nil {
			// no answer to the heartbeat
			s.udpEvent(x, d, rs)
			s.unans(x, heartbeat, nil)
			return rs
		}
		if len(r) == 1 && r[0] == 255 {
			break
		}
		rs = append(rs, r)
	}
	s.udpEvent(x, d, rs)
	s.udpEvent(x, heartbeat, [][]byte{{255}})
	return rs
}

// unans records an unanswered datagram and, after a few of them, ends the run:
// the recorded trace already tells.
func (s *Srv) unans(x *Src, d []byte, rs [][]byte) {
	s.udpEvent(x, d, rs)
	s.unanswered++
	if s.unanswered > 2 {
		fatalStop(s.t, "the UDP server does not answer")
	}
}

func replies(rs [][]byte) [][]int {
	o := [][]int{}
	for _, r := range rs {
		o = append(o, ints(r))
	}
	return o
}

func (s *Srv) udpEvent(x *Src, d []byte, rs [][]byte) {
	s.t.add(M{"e": "udp", "ip": ints(x.ip.AsSlice()), "port": x.port, "data": ints(d), "replies": replies(rs)})
	if len(d) >= 16 && binary.BigEndian.Uint32(d[8:12]) == 0 && len(rs) == 1 && len(rs[0]) == 16 {
		x.prev, x.cur = x.cur, rs[0][8:16]
	}
}

// drain looks for datagrams nobody asked for.
func (s *Srv) drain() {
	for _, n := range s.order {
		x := s.srcs[n]
		var rs [][]byte
		for {
			r := recv(x, time.Millisecond)
			if r == nil {
				break
			}
			rs = append(rs, r)
		}
		s.t.add(M{"e": "stray", "src": n, "replies": replies(rs)})
	}
}

func shaOf(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:8]) }

// request sends data in one write and reads to the end.
func (s *Srv) request(ip string, data []byte) []byte {
	a := s.w.ips[ip]
	return s.requestFrom(a, data)
}

func (s *Srv) dialFrom(a netip.Addr) (net.Conn, error) {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: a.AsSlice(), Zone: zone(a)}, Timeout: patience}
	host := a.WithZone(zone(a)).String()
	if a.Is4() && a.IsLoopback() {
		host = "127.0.0.1"
	}
	return d.Dial("tcp", net.JoinHostPort(host, fmt.Sprint(s.hport)))
}

func (s *Srv) requestFrom(a netip.Addr, data []byte) []byte {
	c, err := s.dialFrom(a)
	must(err)
	defer c.Close()
	_, werr := c.Write(data)
	c.SetReadDeadline(time.Now().Add(patience + s.readTO))
	r, err := io.ReadAll(c)
	closed := !errors.Is(err, os.ErrDeadlineExceeded)
	rst := errors.Is(err, syscall.ECONNRESET) || werr != nil
	var body []byte
	if i := bytes.Index(r, []byte("\r\n\r\n")); i >= 0 {
		body = r[i+4:]
	}
	rec := r
	if len(rec) > 100000 {
		rec = rec[:100000]
	}
	if p, _, _ := strings.Cut(string(data), " HTTP/"); strings.HasPrefix(p, "GET /stats") && len(rec) > 300 {
		rec = rec[:300] // the rest is memory statistics
	}
	s.t.add(M{"e": "http", "ip": ints(a.AsSlice()), "data": ints(data), "reply": ints(rec), "sha": shaOf(body), "doc": isDoc(body), "closed": closed, "rst": rst})
	if !closed {
		s.unanswered++
		if s.unanswered > 2 {
			fatalStop(s.t, "the HTTP server does not answer")
		}
	}
	return r
}

// isDoc tells whether b is one JSON object and nothing else.
func isDoc(b []byte) bool { return len(b) > 0 && b[0] == '{' && json.Valid(b) }

// ---- looks inside

func (s *Srv) dump(h [20]byte) {
	l := []M{}
	for _, b := range s.db.PeerList(storage.Hash(h), 1<<30, false) {
		e := M{"p": []int{}, "ip": []int{}, "port": -1}
		if d, ok := bdict(string(b)); ok {
			if v, ok := get(d, "peer id"); ok {
				x, _ := v.(string)
				e["p"] = ints([]byte(x))
			}
			if v, ok := get(d, "ip"); ok {
				x, _ := v.(string)
				if a, err := netip.ParseAddr(x); err == nil {
					e["ip"] = ints(a.AsSlice())
				}
			}
			if v, ok := get(d, "port"); ok {
				if n, ok := v.(int64); ok {
					e["port"] = n
				}
			}
		}
		l = append(l, e)
	}
	c, i := s.db.HashStats(storage.Hash(h))
	s.t.add(M{"e": "dump", "h": ints(h[:]), "peers": l, "c": int(c), "i": int(i)})
}

func (s *Srv) obs() {
	s.t.add(M{"e": "obs", "seeds": stats.Seeds.Load(), "leeches": stats.Leeches.Load(), "ips": stats.IPStats.Total(),
		"hashes": s.db.Hashes(), "conns": s.udp.Connections()})
}

func (s *Srv) counters() {
	// the last reply may be on its way before the last count is
	time.Sleep(time.Millisecond)
	s.t.add(M{"e": "ctr", "hits": stats.Hits.Load(), "connects": stats.Connects.Load(), "announces": stats.Announces.Load(),
		"scrapes": stats.Scrapes.Load(), "cerr": stats.ClientErrors.Load(), "serr": stats.ServerErrors.Load()})
}

func (s *Srv) adv(d int) {
	s.now += d
	jump := 0
	s.nadv++
	if iv := max(s.cfg.Trim, s.cfg.ConnTrim); !s.nojump && iv > 0 && d > iv && s.nadv%3 == 0 {
		jump = 1 + s.nadv*7%(d-iv)
	}
	pass(d, jump)
	s.t.add(M{"e": "advtrim", "d": d, "jump": jump})
}

func (s *Srv) trim() {
	s.db.Trim()
	s.t.add(M{"e": "trim"})
}

func (s *Srv) save() {
	if s.backup {
		err := s.db.Backup().Save()
		s.t.add(M{"e": "backup", "ok": err == nil})
	}
	err := s.udp.WriteConns()
	s.t.add(M{"e": "saveconns", "ok": err == nil})
}

// restart stops the servers, drops everything in memory and starts from the files.
func (s *Srv) restart() { s.restartAfter(0) }

// restartAfter stops the tracker and starts it again d seconds later.
func (s *Srv) restartAfter(d int) {
	s.stop()
	bak, berr := os.ReadFile(s.bakPath())
	s.forget()
	if berr == nil {
		must(os.WriteFile(s.bakPath(), bak, 0o644))
	}
	if d > 0 {
		s.now += d
		s.t.add(M{"e": "adv", "d": d})
	}
	err := s.start()
	if st, e := os.Stat(s.connPath()); e == nil && st.IsDir() {
		os.Remove(s.connPath()) // corrupt put it there
	}
	s.t.add(M{"e": "restart", "ok": err == nil, "err": fmt.Sprint(err)})
	if err != nil {
		fatalStop(s.t, "restart failed")
	}
}

// corrupt damages the saved connections.
func (s *Srv) corrupt(how int) {
	b, err := os.ReadFile(s.connPath())
	switch {
	case err != nil || how == 0:
		os.Remove(s.connPath())
	case how == 1:
		must(os.WriteFile(s.connPath(), nil, 0o644))
	case how == 2:
		must(os.WriteFile(s.connPath(), b[:len(b)/2], 0o644))
	case how == 3:
		must(os.WriteFile(s.connPath(), b[:len(b)-1], 0o644))
	case how == 4:
		must(os.WriteFile(s.connPath(), bytes.Repeat([]byte{0xff}, 200), 0o644))
	case how == 5:
		must(os.WriteFile(s.connPath(), append([]byte{0xff, 0xff}, b...), 0o644))
	case how == 6: // a directory in its place
		os.Remove(s.connPath())
		must(os.Mkdir(s.connPath(), 0o755))
	}
	s.t.add(M{"e": "corrupt", "how": how})
}

// files is the dictionary of web pages the tracker serves.
func filesDict(repo string) []M {
	l := []M{}
	es, err := os.ReadDir(filepath.Join(repo, "config/embedded"))
	must(err)
	for _, e := range es {
		if e.IsDir() || e.Name() == "trakx.yaml" {
			continue
		}
		raw, err := os.ReadFile(filepath.Join(repo, "config/embedded", e.Name()))
		must(err)
		min := []byte(strings.NewReplacer("\t", "", "\n", "").Replace(string(raw)))
		f := func(p string) M { return M{"path": ints([]byte(p)), "raw": shaOf(raw), "min": shaOf(min)} }
		l = append(l, f("/"+e.Name()))
		if e.Name() == "index.html" {
			l = append(l, f("/"))
		}
	}
	return l
}
