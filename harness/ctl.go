//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// stub is a process that stands in for a daemon or for somebody else's: it
// writes down the signals it is sent.
func stub() {
	c := make(chan os.Signal, 16)
	signal.Notify(c, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT, syscall.SIGUSR1, syscall.SIGUSR2)
	f, err := os.OpenFile(os.Getenv("VERIF_SIGLOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	fmt.Println("ready")
	kind := os.Getenv("VERIF_STUB")
	for s := range c {
		fmt.Fprintln(f, s)
		if s == syscall.SIGINT || s == syscall.SIGTERM {
			switch kind {
			case "prompt":
				os.Exit(0)
			case "slow":
				d, _ := time.ParseDuration(os.Getenv("VERIF_DELAY"))
				time.AfterFunc(d, func() { os.Exit(0) })
			}
		}
	}
}

// kin keeps track of the driver's children; orphaned daemons become its own.
type kin struct {
	mu   sync.Mutex
	ours map[int]bool          // waited for by whoever started them
	seen map[int]chan struct{} // adopted, closed when gone
}

var family = &kin{ours: map[int]bool{}, seen: map[int]chan struct{}{}}

func (k *kin) start(cmd *exec.Cmd) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	err := cmd.Start()
	if err == nil {
		k.ours[cmd.Process.Pid] = true
	}
	return err
}
func (k *kin) forget(pid int) { k.mu.Lock(); delete(k.ours, pid); k.mu.Unlock() }

func childrenOf(pid int) (l []int) {
	ts, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	for _, t := range ts {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/children", pid, t.Name()))
		for _, f := range strings.Fields(string(b)) {
			if n, err := strconv.Atoi(f); err == nil {
				l = append(l, n)
			}
		}
	}
	return
}

func (k *kin) reap() {
	for {
		k.mu.Lock()
		for _, c := range childrenOf(os.Getpid()) {
			if k.ours[c] {
				continue
			}
			ch := k.seen[c]
			if ch == nil {
				ch = make(chan struct{})
				k.seen[c] = ch
			}
			if p, err := syscall.Wait4(c, nil, syscall.WNOHANG, nil); err == nil && p == c {
				close(ch)
				delete(k.seen, c)
			}
		}
		k.mu.Unlock()
		time.Sleep(4 * time.Millisecond)
	}
}

// kproc is a process of a segment.
type kproc struct {
	name string
	pid  int
	kind string
	gone chan struct{}
	log  string
	read int
}

func (p *kproc) alive() bool {
	if p.gone != nil {
		select {
		case <-p.gone:
			return false
		default:
		}
	}
	return syscall.Kill(p.pid, 0) == nil
}

// Ctl is one home with its controller.
type Ctl struct {
	t            *Trace
	dir, home    string
	bin, stubBin string
	uid          uint32
	r            *rand.Rand
	udp          bool
	http         string
	uport, hport int
	n            int
	procs        []*kproc
	bu, bh       string
	closers      []func()
}

func (c *Ctl) cred(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: c.uid, Gid: c.uid}, Setsid: true}
}

func (c *Ctl) environ() []string {
	return []string{"HOME=" + c.home, "PATH=/usr/bin:/bin", "TRAKX_LOGLEVEL=warn",
		"TRAKX_UDP_ENABLED=" + strconv.FormatBool(c.udp), "TRAKX_HTTP_MODE=" + c.http,
		"TRAKX_UDP_PORT=" + strconv.Itoa(c.uport), "TRAKX_HTTP_PORT=" + strconv.Itoa(c.hport),
		"TRAKX_UDP_THREADS=1", "TRAKX_HTTP_THREADS=2", "TRAKX_DB_BACKUP_TYPE=none", "TRAKX_UDP_CONNDB_SIZE=100"}
}

func (c *Ctl) pidfile() string { return filepath.Join(c.home, ".cache/trakx/trakx.pid") }

func (c *Ctl) add(p *kproc) *kproc {
	c.n++
	p.name = fmt.Sprintf("p%d", c.n)
	c.procs = append(c.procs, p)
	return p
}

func (c *Ctl) stub(kind string) *kproc {
	p := c.add(&kproc{kind: kind, gone: make(chan struct{})})
	p.log = filepath.Join(c.home, p.name+".sig")
	cmd := exec.Command(c.stubBin)
	cmd.Args = []string{c.bin, "execute"} // for all the world another tracker
	cmd.Env = []string{"HOME=" + c.home, "VERIF_STUB=" + kind, "VERIF_SIGLOG=" + p.log,
		"VERIF_DELAY=" + []string{"300ms", "1500ms", "6s"}[c.r.Intn(3)]}
	cmd.Dir = c.home
	c.cred(cmd)
	out, err := cmd.StdoutPipe()
	must(err)
	must(family.start(cmd))
	p.pid = cmd.Process.Pid
	bufio.NewReader(out).ReadString('\n')
	go func() { cmd.Wait(); family.forget(p.pid); close(p.gone) }()
	return p
}

func (c *Ctl) living(kind func(string) bool) *kproc {
	for i := len(c.procs) - 1; i >= 0; i-- {
		if p := c.procs[i]; kind(p.kind) && p.alive() {
			return p
		}
	}
	return nil
}
func isStub(k string) bool { return k != "real" && k != "bystander" }
func isReal(k string) bool { return k == "real" }

func (c *Ctl) alive() []string {
	l := []string{}
	for _, p := range c.procs {
		if p.alive() {
			l = append(l, p.name)
		}
	}
	return l
}

// record reads the record file; a number known to be a process's is its name.
func (c *Ctl) record() string {
	b, err := os.ReadFile(c.pidfile())
	if err != nil {
		return "absent"
	}
	s := string(b)
	switch s {
	case "":
		return "empty"
	case "0":
		return "zero"
	case "-1":
		return "minus"
	case deadPid:
		return "dead"
	}
	for _, j := range junk {
		if s == j {
			return "junk"
		}
	}
	for i := len(c.procs) - 1; i >= 0; i-- {
		n := strconv.Itoa(c.procs[i].pid)
		if s == n {
			return c.procs[i].name
		}
		if s == "-"+n {
			return "group"
		}
	}
	return "text:" + s
}

const deadPid = "3999999"

var junk = []string{"abc", "pid: 12", "12 34", "0x10", "\x00\x00", "9999999999999999999999"}

func (c *Ctl) setRecord(what string) bool {
	f := c.pidfile()
	os.Remove(f)
	s := ""
	switch what {
	case "absent":
		return true
	case "empty":
	case "junk":
		s = junk[c.r.Intn(len(junk))]
	case "zero":
		s = "0"
	case "minus":
		s = "-1"
	case "dead":
		s = deadPid
	case "s", "group":
		p := c.living(isStub)
		if p == nil {
			return false
		}
		s = strconv.Itoa(p.pid)
		if what == "group" {
			s = "-" + s
		}
	case "d":
		p := c.living(isReal)
		if p == nil {
			return false
		}
		s = strconv.Itoa(p.pid)
	}
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	must(os.WriteFile(f, []byte(s), 0o644))
	for d := f; d != filepath.Dir(c.home); d = filepath.Dir(d) {
		must(os.Chown(d, int(c.uid), int(c.uid)))
	}
	return true
}

func (c *Ctl) beacon(u, h string) {
	for _, f := range c.closers {
		f()
	}
	c.closers = nil
	c.bu, c.bh = u, h
	if u != "off" {
		var s *net.UDPConn
		for try := 0; ; try++ {
			var err error
			if s, err = net.ListenUDP("udp", &net.UDPAddr{Port: c.uport}); err == nil {
				break
			}
			if try > 200 {
				fatalf("beacon: %v", err)
			}
			time.Sleep(10 * time.Millisecond)
		}
		c.closers = append(c.closers, func() { s.Close() })
		go func() {
			b := make([]byte, 2000)
			for {
				n, a, err := s.ReadFromUDP(b)
				if err != nil {
					return
				}
				if n < 12 || !bytes.Equal(b[8:12], heartbeat[8:12]) {
					continue
				}
				switch u {
				case "ok":
					s.WriteToUDP([]byte{0xff}, a)
				case "bad":
					s.WriteToUDP([]byte{0x00}, a)
				}
			}
		}()
	}
	if h != "off" {
		var l net.Listener
		for try := 0; ; try++ {
			var err error
			if l, err = net.Listen("tcp", fmt.Sprintf(":%d", c.hport)); err == nil {
				break
			}
			if try > 200 {
				fatalf("beacon: %v", err)
			}
			time.Sleep(10 * time.Millisecond)
		}
		c.closers = append(c.closers, func() { l.Close() })
		go func() {
			for {
				s, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer s.Close()
					s.SetDeadline(time.Now().Add(20 * time.Second))
					q, err := bufio.NewReader(s).ReadString('\n')
					if err != nil {
						return
					}
					if h == "silent" {
						bufio.NewReader(s).ReadString(0)
						return
					}
					st := "404 Not Found"
					if h == "ok" && strings.HasPrefix(q, "GET /heartbeat ") {
						st = "200 OK"
					}
					fmt.Fprintf(s, "HTTP/1.1 %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", st)
				}()
			}
		}()
	}
}

// adopted lists the trackers among the driver's own children that came from
// this home's controller.
func (c *Ctl) adopted() (l []int) {
	known := map[int]bool{}
	for _, p := range c.procs {
		known[p.pid] = true
	}
	family.mu.Lock()
	defer family.mu.Unlock()
	for _, pid := range childrenOf(os.Getpid()) {
		if known[pid] || family.ours[pid] {
			continue
		}
		st, err := os.Stat(fmt.Sprintf("/proc/%d", pid))
		if err == nil && st.Sys().(*syscall.Stat_t).Uid == c.uid {
			l = append(l, pid)
		}
	}
	sort.Ints(l)
	return
}

func (c *Ctl) beats() (u, h bool) {
	p := &Proc{Srv: &Srv{uport: c.uport, hport: c.hport}, udpOn: c.udp, http: c.http, patience: 50 * time.Millisecond}
	return p.heartbeats()
}

func (c *Ctl) logged() []byte {
	b, _ := os.ReadFile(filepath.Join(c.home, ".cache/trakx/trakx.log"))
	return b
}

func (c *Ctl) cmd(name string) {
	before := c.logged()
	taken := c.living(isReal) != nil || (c.udp && c.bu != "off") || (c.http != "disabled" && c.bh != "off")
	target := c.record()
	cmd := exec.Command(c.bin, name)
	cmd.Env, cmd.Dir = c.environ(), c.home
	c.cred(cmd)
	var out bytes.Buffer
	f, err := os.Create(filepath.Join(c.dir, "cmd.out"))
	must(err)
	cmd.Stdout, cmd.Stderr = f, f
	t0 := time.Now()
	must(family.start(cmd))
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	atexit := c.alive()
	family.forget(cmd.Process.Pid)
	timer.Stop()
	ms := int(time.Since(t0) / time.Millisecond)
	code := 0
	if err != nil {
		code = cmd.ProcessState.ExitCode()
		if code == 0 {
			code = -2
		}
	}
	f.Close()
	b, _ := os.ReadFile(f.Name())
	out.Write(b)
	// who is new: orphans turn up as children, the record may name one too
	born := []string{}
	var fresh []*kproc
	for _, pid := range c.adopted() {
		p := c.add(&kproc{kind: "real", pid: pid})
		fresh = append(fresh, p)
		born = append(born, p.name)
	}
	if rec := c.record(); strings.HasPrefix(rec, "text:") {
		if pid, err := strconv.Atoi(rec[5:]); err == nil && pid > 1 { // gone before it was seen
			p := c.add(&kproc{kind: "real", pid: pid, gone: make(chan struct{})})
			close(p.gone)
			born = append(born, p.name)
		}
	}
	// let a new daemon come up, or fail to
	if name == "restart" {
		taken = false
		for _, p := range c.procs {
			if p.kind == "real" && p.alive() && p.name != target && !has(born, p.name) {
				taken = true
			}
		}
		taken = taken || (c.udp && c.bu != "off") || (c.http != "disabled" && c.bh != "off")
	}
	for _, p := range fresh {
		wait := 15 * time.Second
		if taken {
			wait = 5 * time.Second
		}
		for end := time.Now().Add(wait); time.Now().Before(end) && p.alive(); time.Sleep(5 * time.Millisecond) {
			if !taken {
				if u, h := c.beats(); (u || !c.udp) && (h || c.http == "disabled") {
					break
				}
			}
		}
	}
	sigs := map[string][]string{}
	for _, p := range c.procs {
		if p.log == "" {
			continue
		}
		b, _ := os.ReadFile(p.log)
		if ls := strings.Fields(string(b[min(p.read, len(b)):])); len(ls) > 0 {
			sigs[p.name] = ls
		}
		p.read = len(b)
	}
	m := M{"e": "cmd", "cmd": name, "code": code, "ms": ms, "rec": c.record(), "born": born, "alive": c.alive(), "atexit": atexit, "sigs": sigs, "kept": bytes.HasPrefix(c.logged(), before), "out": tail(out.String())}
	if name == "status" {
		// three lines, each with its mark
		st := []bool{}
		for _, l := range strings.Split(out.String(), "\n") {
			if strings.HasPrefix(l, "[") {
				st = append(st, strings.Contains(l, "✅"))
			}
		}
		m["status"] = st
	}
	c.t.add(m)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func (c *Ctl) kill(p *kproc) {
	syscall.Kill(p.pid, syscall.SIGKILL)
	for p.alive() {
		time.Sleep(2 * time.Millisecond)
	}
}

func (c *Ctl) end() {
	c.beacon("off", "off")
	for _, p := range c.procs {
		if p.alive() {
			c.kill(p)
		}
	}
	for _, pid := range c.adopted() {
		syscall.Kill(pid, syscall.SIGKILL)
	}
	os.RemoveAll(c.home)
}

// segment plays one walk; operations that do not apply are left out.
func (c *Ctl) segment(ops []M) {
	defer c.end()
	must(os.MkdirAll(c.home, 0o755))
	must(os.Chown(c.home, int(c.uid), int(c.uid)))
	for _, o := range ops {
		str := func(k string) string { s, _ := o[k].(string); return s }
		switch o["e"] {
		case "reset":
			c.udp, c.http = o["udp"].(bool), str("http")
			c.bu, c.bh = "off", "off"
			if c.r.Intn(3) > 0 { // there were others before
				f := filepath.Join(c.home, ".cache/trakx/trakx.log")
				must(os.MkdirAll(filepath.Dir(f), 0o755))
				must(os.WriteFile(f, []byte("what happened on an earlier day\n"), 0o644))
				for d := f; d != filepath.Dir(c.home); d = filepath.Dir(d) {
					must(os.Chown(d, int(c.uid), int(c.uid)))
				}
			}
			b := c.stub("bystander")
			c.t.add(M{"e": "reset", "udp": c.udp, "http": c.http, "bystander": b.name})
		case "stub":
			p := c.stub(str("kind"))
			c.t.add(M{"e": "stub", "name": p.name, "kind": p.kind})
		case "kill":
			f := isStub
			if str("who") == "d" {
				f = isReal
			}
			if p := c.living(f); p != nil {
				c.kill(p)
				c.t.add(M{"e": "kill", "who": p.name})
			}
		case "record":
			if c.setRecord(str("rec")) {
				c.t.add(M{"e": "record", "rec": c.record()})
			}
		case "beacon":
			if c.living(isReal) == nil {
				c.beacon(str("u"), str("h"))
				c.t.add(M{"e": "beacon", "u": c.bu, "h": c.bh})
			}
		case "cmd":
			c.cmd(str("cmd"))
		}
	}
}

func cmdCtl(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	width, _ := strconv.Atoi(args["width"])
	limit, _ := strconv.Atoi(args["max"])
	if width == 0 {
		width = 24
	}
	dir := args["dir"]
	must(os.MkdirAll(dir, 0o755))
	dir, err := filepath.Abs(dir)
	must(err)
	// orphaned daemons come to the driver, which lays them to rest
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 36, 1, 0, 0, 0, 0); e != 0 {
		fatalf("prctl: %v", e)
	}
	if os.Getuid() != 0 {
		fatalf("the controller is only run as somebody without rights, which takes root to arrange")
	}
	go family.reap()
	bin := filepath.Join(dir, "trakx")
	b, err := os.ReadFile(args["bin"])
	must(err)
	must(os.WriteFile(bin, b, 0o755))
	self, err := os.Executable()
	must(err)
	b, err = os.ReadFile(self)
	must(err)
	must(os.MkdirAll(filepath.Join(dir, "stub"), 0o755))
	stubBin := filepath.Join(dir, "stub", "trakx")
	must(os.WriteFile(stubBin, b, 0o755))
	for d := dir; d != "/"; d = filepath.Dir(d) {
		if st, err := os.Stat(d); err != nil || st.Mode().Perm()&0o001 == 0 {
			fatalf("%s cannot be entered by others", d)
		}
	}

	var segs [][]M
	f, err := os.Open(args["script"])
	must(err)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		m := M{}
		must(json.Unmarshal(sc.Bytes(), &m))
		if m["e"] == "reset" {
			segs = append(segs, nil)
		}
		segs[len(segs)-1] = append(segs[len(segs)-1], m)
	}
	f.Close()
	rand.New(rand.NewSource(seed)).Shuffle(len(segs), func(i, j int) { segs[i], segs[j] = segs[j], segs[i] })
	if limit > 0 && len(segs) > limit {
		segs = segs[:limit]
	}
	uid0, _ := strconv.Atoi(args["uid"])
	// ports of its own for each segment, as nobody may be there when nobody should
	base, _ := strconv.Atoi(args["ports"])
	var ports []int
	for p := base; len(ports) < 2*len(segs); p++ {
		if p > base+2900 {
			fatalf("no free ports")
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		u, err := net.ListenUDP("udp", &net.UDPAddr{Port: p})
		l.Close()
		if err == nil {
			u.Close()
			ports = append(ports, p)
		}
	}
	traces := make([]*Trace, len(segs))
	sem := make(chan struct{}, width)
	var wg sync.WaitGroup
	for i := range segs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			traces[i] = &Trace{keep: new([]M)}
			d := filepath.Join(dir, fmt.Sprintf("s%d", i))
			must(os.MkdirAll(d, 0o755))
			c := &Ctl{t: traces[i], dir: d, home: filepath.Join(d, "home"), bin: bin, stubBin: stubBin, uid: uint32(uid0 + i), r: rand.New(rand.NewSource(seed + int64(i))), uport: ports[2*i], hport: ports[2*i+1]}
			c.segment(segs[i])
			os.RemoveAll(d)
		}()
	}
	wg.Wait()
	t := newTrace(args["out"])
	t.add(M{"e": "dict"})
	for _, x := range traces {
		for _, m := range *x.keep {
			t.add(m)
		}
	}
	t.close()
	fmt.Printf("events=%d\n", t.n)
}
