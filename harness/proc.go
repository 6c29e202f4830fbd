//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	gohttp "net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// Proc is the tracker as a process of its own, run from the real binary in a
// scratch home.
type Proc struct {
	*Srv
	g      *G
	bin    string
	heroku bool
	home   string
	http   string // enabled, info, disabled
	udpOn  bool
	file   bool // backups to a file
	cmd    *exec.Cmd
	pid    int
	tracee atomic.Int64
	dead   chan struct{}
	log    *bytes.Buffer
	logMu  sync.Mutex
	freq   time.Duration

	patience time.Duration // how long a datagram's answer may take
	thr      int
	strace   []string
	stlog    string
	env      map[string]string
	nodb     bool // the backup cannot be written
}

func (p *Proc) Write(b []byte) (int, error) {
	p.logMu.Lock()
	defer p.logMu.Unlock()
	if p.log.Len() < 1<<20 {
		p.log.Write(b)
	}
	return len(b), nil
}
func (p *Proc) logged() string { p.logMu.Lock(); defer p.logMu.Unlock(); return p.log.String() }

func dur(n int) string { return fmt.Sprintf("%ds", n) }

func (p *Proc) bak() string  { return filepath.Join(p.home, "backup.db") }
func (p *Proc) conn() string { return filepath.Join(p.home, ".cache/trakx/conn.db") }

func (p *Proc) environ() []string {
	c := p.cfg
	bt := "none"
	if p.file {
		bt = "file"
	}
	e := map[string]string{
		"HOME": p.home, "PATH": "/usr/bin:/bin",
		"TRAKX_LOGLEVEL": "warn", "TRAKX_EXPVARINTERVAL": "1s",
		"TRAKX_ANNOUNCE_BASE": dur(c.Base), "TRAKX_ANNOUNCE_FUZZ": dur(c.Fuzz),
		"TRAKX_HTTP_MODE": p.http, "TRAKX_HTTP_PORT": strconv.Itoa(p.hport), "TRAKX_HTTP_THREADS": strconv.Itoa(p.thr),
		"TRAKX_UDP_ENABLED": strconv.FormatBool(p.udpOn), "TRAKX_UDP_PORT": strconv.Itoa(p.uport), "TRAKX_UDP_THREADS": strconv.Itoa(p.thr),
		"TRAKX_UDP_CONNDB_VALIDATE": strconv.FormatBool(c.Validate), "TRAKX_UDP_CONNDB_EXPIRY": dur(c.ConnExpiry), "TRAKX_UDP_CONNDB_TRIM": dur(c.ConnTrim),
		"TRAKX_NUMWANT_DEFAULT": strconv.Itoa(c.NumDef), "TRAKX_NUMWANT_LIMIT": strconv.Itoa(c.NumLim),
		"TRAKX_DB_BACKUP_TYPE": bt, "TRAKX_DB_BACKUP_PATH": p.bak(), "TRAKX_DB_BACKUP_FREQUENCY": p.freq.String(),
		"TRAKX_DB_EXPIRY": dur(c.Expiry), "TRAKX_DB_TRIM": dur(600),
	}
	for k, v := range p.env {
		if k[0] == '-' {
			delete(e, k[1:])
		} else {
			e[k] = v
		}
	}
	var l []string
	for k, v := range e {
		l = append(l, k+"="+v)
	}
	return l
}

func (p *Proc) heartbeats() (udp, tcp bool) {
	if p.udpOn {
		if c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", p.uport)); err == nil {
			c.Write(heartbeat)
			c.SetReadDeadline(time.Now().Add(p.patience))
			b := make([]byte, 16)
			n, err := c.Read(b)
			udp = err == nil && n > 0
			c.Close()
		}
	}
	if p.http != "disabled" {
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p.hport), time.Second); err == nil {
			c.Write([]byte("GET /heartbeat HTTP/1.1\r\nHost: x\r\n\r\n"))
			c.SetReadDeadline(time.Now().Add(time.Second))
			b := make([]byte, 64)
			n, err := c.Read(b)
			tcp = err == nil && n > 0
			c.Close()
		}
	}
	return
}

// spawn starts the process and waits until it serves, or has ended.
func (p *Proc) spawn() bool {
	for try := 0; try < 20; try++ {
		p.uport, p.hport = freePort(), freePort()
		p.launch()
		if p.wait(60 * time.Second) {
			return true
		}
		p.slay()
		if !strings.Contains(p.logged(), "already in use") {
			return false
		}
	}
	fatalf("no free ports")
	return false
}

func (p *Proc) launch() *exec.Cmd {
	var a []string
	if len(p.strace) > 0 {
		p.stlog = filepath.Join(p.dir, "strace.log")
		os.Remove(p.stlog)
		a = append([]string{"strace", "-f", "-qq", "-o", p.stlog}, p.strace...)
	}
	a = append(a, p.bin)
	if !p.heroku {
		a = append(a, "execute")
	}
	cmd := exec.Command(a[0], a[1:]...)
	cmd.Env, cmd.Dir = p.environ(), p.home
	p.log = new(bytes.Buffer)
	cmd.Stdout, cmd.Stderr = p, p
	must(cmd.Start())
	p.cmd, p.pid, p.dead = cmd, cmd.Process.Pid, make(chan struct{})
	p.tracee.Store(int64(cmd.Process.Pid))
	dead := p.dead
	go func() { cmd.Wait(); close(dead) }()
	return cmd
}

func (p *Proc) wait(d time.Duration) bool {
	end := time.Now().Add(d)
	defer func() { p.patience = 50 * time.Millisecond }()
	for time.Now().Before(end) {
		if p.patience < time.Second {
			p.patience += p.patience / 8
		}
		select {
		case <-p.dead:
			return false
		default:
		}
		u, h := p.heartbeats()
		if (u || !p.udpOn) && (h || p.http == "disabled") {
			if !p.udpOn && p.http == "disabled" {
				time.Sleep(300 * time.Millisecond)
			}
			if len(p.strace) > 0 {
				p.pid = childOf(p.cmd.Process.Pid)
			}
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

func childOf(pid int) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", pid, pid))
	for _, f := range strings.Fields(string(b)) {
		if n, err := strconv.Atoi(f); err == nil {
			return n
		}
	}
	return pid
}

// slay ends the process for sure.
func (p *Proc) slay() {
	if p.cmd == nil {
		return
	}
	if c := childOf(p.cmd.Process.Pid); len(p.strace) > 0 && c != p.cmd.Process.Pid {
		syscall.Kill(c, syscall.SIGKILL)
	}
	p.cmd.Process.Kill()
	<-p.dead
}

func (p *Proc) isDead() bool {
	select {
	case <-p.dead:
		return true
	default:
		return false
	}
}

// forgetIDs makes the clients ask for connection ids anew.
func (p *Proc) forgetIDs() {
	for _, x := range p.srcs {
		x.cur, x.prev = nil, nil
	}
}

func (p *Proc) start() bool {
	ok := p.spawn()
	p.t.add(M{"e": "start", "ok": ok, "http": p.http, "udp": p.udpOn, "file": p.file, "log": tailOf(p.logged(), ok)})
	p.up = ok
	return ok
}

func tailOf(s string, ok bool) string {
	if ok {
		return ""
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func (p *Proc) signal(s syscall.Signal) { syscall.Kill(p.pid, s) }

var sigName = map[syscall.Signal]string{syscall.SIGINT: "int", syscall.SIGTERM: "term", syscall.SIGUSR1: "usr1"}

// stamp identifies a file's current version.
func stamp(path string) string {
	st, err := os.Stat(path)
	if err != nil {
		return ""
	}
	return fmt.Sprint(st.ModTime().UnixNano(), st.Size(), st.Sys().(*syscall.Stat_t).Ino)
}

// settledFiles waits until the files the process keeps have all been written
// anew and have stopped changing.
func (p *Proc) settledFiles(old map[string]string, d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) && !p.isDead() {
		all := true
		for f, s := range old {
			if n := stamp(f); n == s || n == "" {
				all = false
			}
		}
		if all {
			was := p.stamps()
			time.Sleep(120 * time.Millisecond)
			same := true
			for f, s := range p.stamps() {
				if was[f] != s {
					same = false
				}
			}
			if same {
				return true
			}
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

func (p *Proc) stamps() map[string]string {
	m := map[string]string{}
	if p.file && !p.nodb {
		m[p.bak()] = stamp(p.bak())
	}
	if p.udpOn {
		m[p.conn()] = stamp(p.conn())
	}
	return m
}

// usr1 asks for a save; busy requests go on meanwhile.
func (p *Proc) usr1(busy int) bool {
	old := p.stamps()
	p.t.add(M{"e": "usr1"})
	p.signal(syscall.SIGUSR1)
	for i := 0; i < busy; i++ {
		p.op()
	}
	ok := p.settledFiles(old, 40*time.Second)
	p.t.add(M{"e": "saved", "nodb": p.nodb, "ok": ok, "dead": p.isDead()})
	return ok
}

// end sends a stop signal and waits for the process to end.
func (p *Proc) end(sig syscall.Signal) bool {
	t0 := time.Now()
	p.signal(sig)
	code := -1
	select {
	case <-p.dead:
		code = p.cmd.ProcessState.ExitCode()
	case <-time.After(40 * time.Second):
	}
	if code == -1 {
		p.slay()
	}
	u, h := p.heartbeats()
	p.t.add(M{"e": "exit", "sig": sigName[sig], "code": code, "ms": int(time.Since(t0) / time.Millisecond), "serving": u || h, "nodb": p.nodb})
	p.up = false
	return code == 0
}

// endBusy sends a stop signal to a process whose disk is slow, and announces
// meanwhile. What is acknowledged then has to be in the save.
func (p *Proc) endBusy(sig syscall.Signal) bool {
	g := p.g
	p.signal(sig)
	t0 := time.Now()
	for i, at := range []int{300, 700, 1100, 1500} {
		select {
		case <-p.dead:
		case <-time.After(time.Until(t0.Add(time.Duration(at) * time.Millisecond))):
		}
		if p.isDead() {
			break
		}
		h, pid, port := g.one(g.hs), p.w.pn[6+i], 1+g.Intn(65535)
		a := ann{h: p.w.hs[h], p: p.w.ps[pid], port: uint16(port), left: uint64(g.Intn(2)), numwant: -1}
		acked := false
		if y := p.src("i1", 0); p.udpOn && y.cur != nil && (p.http != "enabled" || g.p(0.6)) {
			for recv(y, time.Millisecond) != nil {
			}
			g.tx++
			y.c.WriteToUDP(a.udp(y.cur, g.tx), p.serverAddr(y.ip))
			r := recv(y, 250*time.Millisecond)
			acked = len(r) >= 20 && binary.BigEndian.Uint32(r) == 1
		} else if p.http == "enabled" {
			if c, err := p.dialFrom(p.w.ips["i1"]); err == nil {
				fmt.Fprintf(c, "GET /announce?info_hash=%s&peer_id=%s&port=%d&left=%d HTTP/1.1\r\n\r\n", g.esc(string(a.h[:]), 2), g.esc(string(a.p[:]), 2), port, a.left)
				c.SetReadDeadline(time.Now().Add(250 * time.Millisecond))
				r, _ := io.ReadAll(c)
				acked = bytes.Contains(r, []byte("8:interval"))
				c.Close()
			}
		} else {
			continue
		}
		p.t.add(M{"e": "late", "h": ints(a.h[:]), "p": ints(a.p[:]), "ip": ints(p.w.ips["i1"].AsSlice()), "port": port, "c": a.left == 0, "acked": acked, "ms": int(time.Since(t0) / time.Millisecond)})
	}
	return p.end(sig)
}

// block makes it impossible to write the backup, unblock puts the last one back.
func (p *Proc) block() {
	p.nodb = true
	if err := os.Rename(p.bak(), p.home+"/kept.db"); err != nil && !os.IsNotExist(err) {
		must(err)
	}
	must(os.MkdirAll(p.bak()+"/x", 0o755))
}
func (p *Proc) unblock() {
	if !p.nodb {
		return
	}
	p.nodb = false
	must(os.RemoveAll(p.bak()))
	if err := os.Rename(p.home+"/kept.db", p.bak()); err != nil && !os.IsNotExist(err) {
		must(err)
	}
}

// slowRead holds the process up where it reads back what it saved.
func (p *Proc) slowRead() []string {
	return []string{"-P", p.conn(), "-P", p.bak(), "-e", "trace=read,pread64", "-e", "inject=read,pread64:delay_enter=400000"}
}

// minds tells whether it is the tracker and past the point where such a
// signal ends any process, whatever its code: the Go runtime has begun.
func (p *Proc) minds(pid int, sig syscall.Signal) bool {
	if exe, _ := os.Readlink(fmt.Sprintf("/proc/%d/exe", pid)); exe != p.bin {
		return false
	}
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if x, ok := strings.CutPrefix(l, "SigCgt:"); ok {
			m, err := strconv.ParseUint(strings.TrimSpace(x), 16, 64)
			return err == nil && m>>(uint(sig)-1)&1 == 1
		}
	}
	return false
}

// hasten starts the process while it is being asked to save all the time.
func (p *Proc) hasten() bool {
	p.strace = p.slowRead()
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for n := 0; n < 100; {
			select {
			case <-stop:
				return
			case <-time.After(30 * time.Millisecond):
			}
			if c := p.tracee.Load(); c != 0 {
				if k := childOf(int(c)); k != int(c) && p.minds(k, syscall.SIGUSR1) {
					syscall.Kill(k, syscall.SIGUSR1)
					n++
				}
			}
		}
	}()
	ok := p.start()
	close(stop)
	<-done
	if ok {
		time.Sleep(200 * time.Millisecond)
		ok = p.usr1(0)
	}
	return ok
}

// stillborn starts the process and tells it to stop before it serves.
func (p *Proc) stillborn(after time.Duration, sig syscall.Signal) {
	p.strace = p.slowRead()
	p.uport, p.hport = freePort(), freePort()
	cmd := p.launch()
	time.Sleep(after)
	// strace has other children before this one
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end) && !p.isDead(); time.Sleep(5 * time.Millisecond) {
		k := childOf(cmd.Process.Pid)
		if exe, _ := os.Readlink(fmt.Sprintf("/proc/%d/exe", k)); exe == p.bin {
			syscall.Kill(k, sig)
			break
		}
	}
	select {
	case <-p.dead:
	case <-time.After(30 * time.Second):
	}
	gone := p.isDead()
	p.slay()
	p.t.add(M{"e": "stillborn", "sig": sigName[sig], "gone": gone, "ms": int(after / time.Millisecond)})
	p.strace = nil
}

func (p *Proc) kill() {
	p.slay()
	p.t.add(M{"e": "kill"})
	p.up = false
}

// ---- requests

func (p *Proc) op() {
	g := p.g
	switch {
	case p.udpOn && (p.http != "enabled" || g.p(0.5)):
		y := p.src(g.one(g.ips), g.Intn(2))
		if y.cur == nil {
			g.connect(y)
		}
		if g.p(0.15) {
			g.tx++
			p.send(y, udpScrape(g.connid(y, 0.1), g.tx, p.w.hs[g.one(g.hs)]))
			return
		}
		g.udpAnnounce(y, g.one(g.hs), g.one(g.ps), 0.05)
	case p.http == "enabled":
		ps := g.annParams(p.w.hs[g.one(g.hs)], p.w.ps[g.one(g.ps)], 1+g.Intn(65535), 0)
		p.request(g.one(g.ips), []byte("GET /announce?"+g.query(ps)+" HTTP/1.1\r\n\r\n"))
	case p.http == "info":
		p.infoRequest()
	}
}

// probe looks at every torrent through the servers: its counts and, by way of
// a peer that comes and goes, its peers.
func (p *Proc) probe() {
	var pp [20]byte
	copy(pp[:], "-PROBE-PROBE-PROBE--")
	for _, n := range p.g.hs {
		h := p.w.hs[n]
		switch {
		case p.http == "enabled":
			q := func(ev string) []byte {
				return []byte("GET /announce?info_hash=" + p.g.esc(string(h[:]), 2) + "&peer_id=" + p.g.esc(string(pp[:]), 1) + "&port=7777&numwant=1000&event=" + ev + " HTTP/1.1\r\n\r\n")
			}
			p.request("i5", q("started"))
			p.request("i5", q("stopped"))
		case p.udpOn:
			y := p.src("i5", 0)
			if y.cur == nil {
				p.g.connect(y)
			}
			a := ann{h: h, p: pp, port: 7777, left: 1, numwant: 1000}
			p.g.tx++
			p.send(y, a.udp(y.cur, p.g.tx))
			a.event = 3
			p.send(y, a.udp(y.cur, p.g.tx))
			p.send(y, udpScrape(y.cur, p.g.tx, h))
		}
	}
}

// oldIDs tries the connection ids issued before.
func (p *Proc) oldIDs() {
	if !p.udpOn {
		return
	}
	for _, n := range append([]string{}, p.order...) {
		if x := p.srcs[n]; x.cur != nil {
			p.g.tx++
			p.send(x, udpScrape(x.cur, p.g.tx, p.w.hs["h1"]))
		}
	}
}

// ---- info mode

func (p *Proc) infoRequest() {
	g := p.g
	paths := []string{"/", "/index.html", "/dmca.html", "/trakx.yaml", "/embedded/trakx.yaml", "/config/trakx.yaml", "/scrape", "/scrape?info_hash=aaaaaaaaaaaaaaaaaaaa", "/heartbeat", "/nope", "/announce", "/index.html?x=1",
		"/announce?" + g.query(g.annParams(p.w.hs[g.one(g.hs)], p.w.ps[g.one(g.ps)], 1+g.Intn(65535), 0.1)),
		"/announce?" + g.query(g.annParams(p.w.hs[g.one(g.hs)], p.w.ps[g.one(g.ps)], 1+g.Intn(65535), 0))}
	path := g.one(paths)
	conn, err := p.dialFrom(p.w.ips["i1"])
	if err != nil {
		p.t.add(M{"e": "info", "path": "", "status": 0, "body": []int{}, "sha": "", "err": err.Error()})
		return
	}
	defer conn.Close()
	raw := ""
	for i := 0; i < len(path); i++ {
		if c := path[i]; c <= ' ' || c >= 127 || c == '#' {
			raw += fmt.Sprintf("%%%02x", c)
		} else {
			raw += string(c)
		}
	}
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", raw)
	conn.SetReadDeadline(time.Now().Add(patience))
	status, body, why := 0, []byte{}, ""
	if all, err := io.ReadAll(conn); err == nil {
		if r, err := gohttp.ReadResponse(bufio.NewReader(bytes.NewReader(all)), nil); err == nil {
			status = r.StatusCode
			body, _ = io.ReadAll(r.Body)
		} else {
			why = err.Error()
		}
	} else {
		why = err.Error()
	}
	pa, _, _ := strings.Cut(raw, "?")
	show := body
	if len(show) > 200 {
		show = show[:200]
	}
	p.t.add(M{"e": "info", "path": ints([]byte(pa)), "status": status, "body": ints(show), "sha": shaOf(body), "err": why})
}

// ---- preloading

// preload writes a backup that holds a crowd, with the real code in this process.
func (p *Proc) preload(n int) {
	c := p.cfg
	os.Remove(p.bak())
	c.Trim, c.Backup = 0, 0
	c.apply("file", p.bak())
	// the process's clock is the real one
	vtime.Start(time.Now())
	pools.Initialize(c.NumLim)
	db, err := storage.Open()
	must(err)
	l := []M{}
	for i, h := range p.g.hs {
		k := n / (i + 1)
		var id [20]byte
		copy(id[:], "crowd")
		for j := 0; j < k; j++ {
			binary.BigEndian.PutUint32(id[16:], uint32(j))
			db.Save(crowdAddr, uint16(1+j%60000), j%3 == 0, storage.Hash(p.w.hs[h]), storage.PeerID(id))
		}
		s := (k + 2) / 3
		l = append(l, M{"h": ints(hash20(p.w.hs[h])), "c": s, "i": k - s})
	}
	must(db.Backup().Save())
	vtime.Stop()
	p.t.add(M{"e": "preload", "crowd": l})
}

func hash20(h [20]byte) []byte { return h[:] }

func (p *Proc) reset(c Cfg) {
	if p.cmd != nil && !p.isDead() {
		p.slay()
	}
	for _, x := range p.srcs {
		x.c.Close()
	}
	p.srcs, p.order = map[string]*Src{}, nil
	p.cfg, p.now = c, 0
	must(os.RemoveAll(p.home))
	must(os.MkdirAll(p.home, 0o755))
	p.strace, p.env, p.freq = nil, nil, 0
	p.g.seen, p.g.ctimes = map[string]int{}, map[string]int{}
	p.t.add(M{"e": "reset", "cfg": c})
}

// ---- profiles

func (p *Proc) pick() {
	g := p.g
	p.hsN(1 + g.Intn(3))
	g.ps = p.w.pn[:2+g.Intn(5)]
	g.ips = p.w.in4[:1+g.Intn(3)]
	if p.v6 && g.p(0.4) {
		g.ips = append(append([]string{}, g.ips...), p.w.in6[0])
	}
}
func (p *Proc) hsN(n int) { p.g.hs = p.w.hn[:n] }

func (p *Proc) modes() {
	g := p.g
	switch g.Intn(6) {
	case 0:
		p.http, p.udpOn = "enabled", false
	case 1:
		p.http, p.udpOn = "disabled", true
	case 2:
		p.http, p.udpOn = "info", true
	default:
		p.http, p.udpOn = "enabled", true
	}
	p.file = g.p(0.85)
}

var slowDisk = []string{"-e", "trace=fsync,fdatasync,rename,renameat,renameat2", "-e", "inject=fsync,fdatasync,rename,renameat,renameat2:delay_enter=600000"}

// signals: lives of a process between starts, saves, stops and kills.
func (p *Proc) signals(segs int) {
	g := p.g
	for i := 0; i < segs; i++ {
		p.pick()
		p.modes()
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		p.thr = []int{1, 2, 8}[g.Intn(3)]
		crowd := p.file && g.p(0.3)
		if crowd {
			c.NumDef, c.NumLim = 3, 5
		}
		p.reset(c)
		if crowd {
			p.preload(20000 + g.Intn(60000))
		}
		slow := !crowd && g.p(0.5)
		killed := false
		for life := 0; life < 2+g.Intn(3); life++ {
			if p.file && g.p(0.15) {
				p.freq = time.Second
			} else {
				p.freq = 0
			}
			if life > 0 && g.p(0.2) { // what is enabled may change between starts
				f := p.file
				p.modes()
				p.file = f
			}
			p.strace = nil
			if life > 0 && g.p(0.2) {
				p.stillborn(time.Duration(20+g.Intn(900))*time.Millisecond, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.Intn(2)])
			}
			if slow {
				p.strace = slowDisk
			}
			if life > 0 && !slow && g.p(0.3) {
				if !p.hasten() {
					break
				}
			} else if !p.start() {
				break
			}
			p.oldIDs()
			if killed || life > 0 {
				p.forgetIDs()
			}
			killed = false
			p.probe()
			for n := 1 + g.Intn(8); n > 0; n-- {
				p.op()
			}
			if p.freq > 0 && p.file {
				p.periodic()
			}
			if p.file && p.freq == 0 && p.udpOn && g.p(0.2) {
				p.block()
			}
			bad := false
			for k := g.Intn(3); k > 0 && !bad; k-- {
				busy := 0
				if g.p(0.4) {
					busy = 1 + g.Intn(2)
				}
				bad = !p.usr1(busy)
				for n := g.Intn(4); n > 0 && !bad; n-- {
					p.op()
				}
			}
			if bad {
				break
			}
			p.probe()
			switch x := g.Intn(8); {
			case slow && x > 0:
				p.endBusy([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.Intn(2)])
			case x == 0:
				p.kill()
				killed = true
			case x == 1: // an exit signal on top of saves
				for k := 1 + g.Intn(4); k > 0; k-- {
					p.signal(syscall.SIGUSR1)
					if g.p(0.3) {
						time.Sleep(time.Duration(g.Intn(3000)) * time.Microsecond)
					}
				}
				p.end([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.Intn(2)])
			case x < 5:
				p.end(syscall.SIGTERM)
			default:
				p.end(syscall.SIGINT)
			}
			p.unblock()
		}
		p.nodb = false
		if !p.isDead() {
			p.slay()
		}
	}
}

// periodic waits for the scheduled saves and ends the process without one.
func (p *Proc) periodic() {
	if p.g.p(0.3) { // the machine was suspended
		p.signal(syscall.SIGSTOP)
		time.Sleep(2500 * time.Millisecond)
		p.signal(syscall.SIGCONT)
	}
	a := stamp(p.bak())
	end := time.Now().Add(10 * time.Second)
	n := 0
	for time.Now().Before(end) && n < 2 {
		time.Sleep(20 * time.Millisecond)
		if b := stamp(p.bak()); b != a && b != "" {
			a = b
			n++
		}
	}
	time.Sleep(100 * time.Millisecond)
	p.t.add(M{"e": "periodic", "saves": n})
	p.kill()
	p.freq = 0 // a scheduled save would be taken for one that was asked for
	if !p.start() {
		return
	}
	p.forgetIDs()
	p.probe()
}

// ---- crashes and failures during a save

var saveCalls = []string{"openat", "creat", "write", "pwrite64", "writev", "fsync", "fdatasync", "sync_file_range", "ftruncate", "truncate", "rename", "renameat", "renameat2",
	"unlink", "unlinkat", "link", "linkat", "symlinkat", "fchmod", "fchmodat", "close", "fallocate", "copy_file_range", "sendfile", "fcntl", "newfstatat", "fstat"}

var failCalls = map[string][]string{"openat": {"EACCES", "EMFILE", "ENOSPC"}, "creat": {"EACCES"}, "write": {"ENOSPC", "EIO"}, "pwrite64": {"ENOSPC"}, "writev": {"ENOSPC"},
	"fsync": {"EIO"}, "fdatasync": {"EIO"}, "ftruncate": {"EIO"}, "truncate": {"EIO"}, "rename": {"EACCES", "ENOSPC"}, "renameat": {"EACCES", "ENOSPC"}, "renameat2": {"EACCES"},
	"unlink": {"EACCES"}, "unlinkat": {"EACCES"}, "link": {"EACCES"}, "linkat": {"EACCES"}, "close": {"EIO"}, "fchmod": {"EPERM"}, "fallocate": {"ENOSPC"}}

var stLine = regexp.MustCompile(`^\d+\s+(\w+)\(`)

// region returns, per call, which of its occurrences in the process came after
// the signal.
func region(log string, sig string) (n map[string]int, first map[string]int) {
	n, first = map[string]int{}, map[string]int{}
	after := false
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "--- "+sig) {
			after = true
			for k, v := range n {
				first[k] = v
			}
		}
		if m := stLine.FindStringSubmatch(l); m != nil {
			n[m[1]]++
		}
	}
	if !after {
		return nil, nil
	}
	return
}

func rlimitFsize(pid int, n uint64) error {
	lim := syscall.Rlimit{Cur: n, Max: ^uint64(0)}
	_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_FSIZE, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

// doomed asks for a save that is going to be cut short, one way or the other,
// and then starts the process again. Either the backup before it or the new
// one is to be found.
func (p *Proc) doomed(how string, exit bool, limit int) (hit bool) {
	g := p.g
	p.strace = nil
	if how != "" {
		p.strace = []string{"-e", "trace=" + strings.Join(saveCalls, ","), "-e", "inject=" + how}
	}
	if !p.start() {
		return
	}
	p.forgetIDs()
	for n := 1 + g.Intn(3); n > 0; n-- {
		p.op()
	}
	if limit >= 0 {
		must(rlimitFsize(p.pid, uint64(limit)))
	}
	sig := syscall.SIGUSR1
	if exit {
		sig = syscall.SIGTERM
	}
	p.t.add(M{"e": "doomed", "how": how, "limit": limit, "sig": sigName[sig]})
	p.signal(sig)
	d := 1500 * time.Millisecond
	if exit {
		d = 15 * time.Second
	}
	end := time.Now().Add(d)
	quiet := 0
	was := fmt.Sprint(stamp(p.bak()), stamp(p.conn()), dirOf(p.home))
	for time.Now().Before(end) && !p.isDead() && (exit || quiet < 12) {
		time.Sleep(20 * time.Millisecond)
		now := fmt.Sprint(stamp(p.bak()), stamp(p.conn()), dirOf(p.home))
		if now == was {
			quiet++
		} else {
			quiet, was = 0, now
		}
	}
	if b, err := os.ReadFile(p.stlog); err == nil && len(p.strace) > 0 {
		hit = bytes.Contains(b, []byte("INJECTED")) || p.isDead()
	}
	alive := !p.isDead()
	p.slay()
	p.t.add(M{"e": "cut", "alive": alive, "hit": hit})
	p.up = false
	p.forgetIDs()
	// what is left
	p.strace = nil
	if !p.start() {
		return
	}
	p.probe()
	if g.p(0.5) { // and the next save has to work
		p.op()
		if g.p(0.5) {
			if !p.usr1(0) {
				return
			}
			p.kill()
		} else {
			p.end(syscall.SIGTERM)
		}
	} else {
		p.kill()
		p.forgetIDs()
	}
	return
}

func dirOf(d string) string {
	es, _ := os.ReadDir(d)
	var l []string
	for _, e := range es {
		l = append(l, e.Name()+stamp(filepath.Join(d, e.Name())))
	}
	return strings.Join(l, " ")
}

func (p *Proc) crash(part, parts, runs int) {
	g := p.g
	setup := func(crowd bool) {
		p.http, p.udpOn, p.file = "enabled", true, true
		p.thr = 1
		p.pick()
		p.hsN(2)
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		if crowd {
			c.NumDef, c.NumLim = 3, 5
		}
		p.reset(c)
		if crowd {
			p.preload(3000 + g.Intn(20000))
		}
	}
	hits, tried := 0, 0
	straced := true
	k := 0
	for _, exit := range []bool{false, true} {
		setup(true)
		// a save that is only watched
		p.strace = []string{"-e", "trace=" + strings.Join(saveCalls, ",")}
		sig := syscall.SIGUSR1
		if exit {
			sig = syscall.SIGTERM
		}
		if !p.spawnQuiet() {
			straced = false
			break
		}
		old := p.stamps()
		p.signal(sig)
		if exit {
			select {
			case <-p.dead:
			case <-time.After(10 * time.Second):
			}
		} else {
			p.settledFiles(old, 10*time.Second)
		}
		p.slay()
		b, _ := os.ReadFile(p.stlog)
		n, first := region(string(b), "SIG"+strings.ToUpper(sigName[sig]))
		if n == nil {
			straced = false
			break
		}
		var shots []string
		for _, c := range saveCalls {
			for i := first[c] + 1; i <= n[c]; i++ {
				shots = append(shots, fmt.Sprintf("%s:signal=KILL:when=%d", c, i))
				for _, e := range failCalls[c] {
					shots = append(shots, fmt.Sprintf("%s:error=%s:when=%d", c, e, i))
					if len(failCalls[c]) > 0 {
						shots = append(shots, fmt.Sprintf("%s:error=%s:when=%d+", c, e, i))
					}
				}
			}
		}
		g.Shuffle(len(shots), func(i, j int) { shots[i], shots[j] = shots[j], shots[i] })
		if parts > 1 {
			var mine []string
			for i, s := range shots {
				if i%parts == part {
					mine = append(mine, s)
				}
			}
			shots = mine
		}
		if runs > 0 && len(shots) > runs {
			// kills first
			var ks, es []string
			for _, s := range shots {
				if strings.Contains(s, "KILL") {
					ks = append(ks, s)
				} else {
					es = append(es, s)
				}
			}
			shots = append(ks, es...)
			m := runs * 2 / 3
			if len(ks) < m {
				m = len(ks)
			}
			shots = append(ks[:m:m], es[:min(len(es), runs-m)]...)
		}
		for _, s := range shots {
			if k%6 == 0 {
				setup(k%12 == 0)
				if k%12 != 0 { // a first backup
					if !p.start() {
						return
					}
					p.op()
					p.op()
					p.end(syscall.SIGTERM)
				}
			}
			k++
			limit := -1
			if strings.Contains(s, "signal") && g.p(0.3) {
				limit = g.Intn(30000)
			}
			tried++
			if p.doomed(s, exit, limit) {
				hits++
			}
			if p.cmd == nil || !p.isDead() {
				return
			}
		}
	}
	// writes that stop short
	shorts := max(4, runs)
	for i := 0; i < shorts; i++ {
		setup(i%2 == 0)
		if i%2 == 1 {
			if !p.start() {
				return
			}
			p.op()
			p.op()
			p.end(syscall.SIGTERM)
		}
		lim := []int{0, 1, 8, 100, 4096, 65536, g.Intn(400), g.Intn(300000)}[i%8]
		p.doomed("", g.p(0.4), lim)
		if !p.isDead() {
			return
		}
	}
	fmt.Printf("strace=%v shots=%d hits=%d shorts=%d\n", straced, tried, hits, shorts)
}

// spawnQuiet starts the process off the record.
func (p *Proc) spawnQuiet() bool { return p.spawn() }

func (p *Proc) info(segs int) {
	g := p.g
	for i := 0; i < segs; i++ {
		p.pick()
		p.http, p.udpOn, p.file, p.thr = "info", true, g.p(0.5), 2
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		p.reset(c)
		if !p.start() {
			continue
		}
		for n := 0; n < 40; n++ {
			if g.p(0.15) {
				y := p.src(g.one(g.ips), g.Intn(2))
				if y.cur == nil {
					g.connect(y)
				}
				if g.p(0.5) {
					g.udpAnnounce(y, g.one(g.hs), g.one(g.ps), 0)
				} else {
					p.probe()
				}
				continue
			}
			p.infoRequest()
		}
		p.probe()
		p.end(syscall.SIGTERM)
	}
	// the web files of the tracker
	for i := 0; i < max(1, segs/3); i++ {
		p.pick()
		p.http, p.udpOn, p.file, p.thr = "enabled", false, false, 2
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		p.reset(c)
		if !p.start() {
			continue
		}
		for _, q := range []string{"/", "/index.html", "/dmca.html", "/trakx.yaml", "/index", "/embedded/index.html", "/../trakx.yaml", "/config/embedded/trakx.yaml", "//", "/heartbeat", "/nope.html", "/Index.html", "/trakx.yaml?x", "/.", "/..", "/index.html/", "/%2e%2e/trakx.yaml"} {
			p.request("i1", []byte("GET "+q+" HTTP/1.1\r\n\r\n"))
		}
		p.end(syscall.SIGINT)
	}
}

func cmdProc(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	n, _ := strconv.Atoi(args["n"])
	part, _ := strconv.Atoi(args["part"])
	parts, _ := strconv.Atoi(args["parts"])
	dir := args["dir"]
	must(os.MkdirAll(dir, 0o755))
	dir, err := filepath.Abs(dir)
	must(err)
	w := stdWorld(4, 12, 7, 5)
	s := &Srv{w: w, t: newTrace(args["out"]), dir: dir, srcs: map[string]*Src{}, v6: haveV6(), threads: 1, nofence: true, readTO: 3 * time.Second}
	s.t.add(M{"e": "dict", "files": filesDict(args["repo"])})
	g := &G{Rand: rand.New(rand.NewSource(seed)), s: s, heroku: args["heroku"] != "", tx: uint32(seed)}
	bin := filepath.Join(dir, "trakx")
	b, err := os.ReadFile(args["bin"])
	must(err)
	must(os.WriteFile(bin, b, 0o755))
	p := &Proc{Srv: s, g: g, bin: bin, patience: 50 * time.Millisecond, heroku: args["heroku"] != "", home: filepath.Join(dir, "home")}
	switch args["profile"] {
	case "signals":
		p.signals(n)
	case "crash":
		p.crash(part, parts, n)
	case "info":
		p.info(n)
	case "refuse":
		p.refusals(n, 8)
	case "bind":
		off, _ := strconv.Atoi(args["off"])
		p.binds(n, part, parts, off)
	default:
		fatalf("unknown profile %s", args["profile"])
	}
	if p.cmd != nil && !p.isDead() {
		p.slay()
	}
	s.t.close()
	fmt.Printf("events=%d\n", s.t.n)
}
