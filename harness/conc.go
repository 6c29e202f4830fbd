//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/netip"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz_verif/vsync"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// Conc runs overlapping database operations and records when each was called
// and returned, and what it returned.
type Conc struct {
	w     *World
	t     *Trace
	dir   string
	cfg   Cfg
	db    storage.Database
	r     *DBRun // decoding
	seen  map[uint64]bool
	runs  int
	kept  int
	stuck int
	mu    sync.Mutex
	evs   []M
	par   bool
}

func (c *Conc) add(m M) {
	if c.par {
		c.mu.Lock()
		defer c.mu.Unlock()
	}
	c.evs = append(c.evs, m)
}

var concCfg = Cfg{Expiry: 10, Trim: 0, NumDef: 75, NumLim: 5, Base: 1800, Fuzz: 0, ConnExpiry: 1800, ConnTrim: 600, Validate: true}

func (c *Conc) bak() string { return filepath.Join(c.dir, "trakx.db") }

// fresh starts a database whose clock stands at 0.
func (c *Conc) fresh(backup bool) {
	bt := "none"
	if backup {
		bt = "file"
		os.Remove(c.bak())
	}
	db, err := c.cfg.open(bt, c.bak(), 0)
	must(err)
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	c.db = db
	c.r.db, c.r.cfg, c.r.w = db, c.cfg, c.w
	c.evs = nil
	c.add(M{"e": "reset", "cfg": c.cfg})
}

// empty takes everything out again, and with it out of the metrics.
func empty(db storage.Database) {
	vtime.Start(clockBase.Add(secs(10_000_000)))
	db.Trim()
}

func (c *Conc) adv(d int) {
	vtime.Advance(secs(d))
	c.add(M{"e": "adv", "d": d})
}

// do performs one operation as thread t.
func (c *Conc) do(t int, o Op) {
	call := M{"e": "call", "t": t, "op": o.E}
	h := storage.Hash(c.w.hs[o.H])
	id := storage.PeerID(c.w.ps[o.P])
	ret := M{"e": "ret", "t": t}
	switch o.E {
	case "save":
		call["h"], call["p"], call["ip"], call["port"], call["c"] = o.H, o.P, o.IP, o.Port, o.C
		c.add(call)
		c.db.Save(c.w.ips[o.IP], uint16(o.Port), o.C, h, id)
	case "drop":
		call["h"], call["p"] = o.H, o.P
		c.add(call)
		c.db.Drop(h, id)
	case "trim":
		c.add(call)
		c.db.Trim()
	case "stats":
		call["h"] = o.H
		c.add(call)
		a, b := c.db.HashStats(h)
		ret["c"], ret["i"] = int(a), int(b)
	case "list":
		call["h"], call["n"], call["nopid"] = o.H, o.N, o.NoPid
		c.add(call)
		ls := c.db.PeerList(h, uint(o.N), o.NoPid)
		l := []M{}
		for _, b := range ls {
			l = append(l, c.r.listEntry(b))
		}
		ret["peers"] = l
	case "listb":
		call["h"], call["n"] = o.H, o.N
		c.add(call)
		p4, p6 := c.db.PeerListBytes(h, uint(o.N))
		ret["v4"], ret["v6"] = c.chunks(p4, 6), c.chunks(p6, 18)
		pools.Peerlists4.Put(p4)
		pools.Peerlists6.Put(p6)
	case "backup":
		c.add(call)
		err := c.db.Backup().Save()
		ret["ok"] = err == nil
		b, err := os.ReadFile(c.bak())
		if err != nil {
			ret["ok"] = false
		}
		ret["file"] = b // replaced by what a start makes of it
	default:
		fatalf("conc: %v", o)
	}
	c.add(ret)
}

func (c *Conc) chunks(b []byte, w int) []M {
	l := []M{}
	for i := 0; i < len(b); i += w {
		if i+w > len(b) {
			l = append(l, M{"p": "-", "ip": "?", "port": -1})
			break
		}
		a, _ := netip.AddrFromSlice(b[i : i+w-2])
		l = append(l, M{"p": "-", "ip": c.w.addrName(a), "port": int(b[i+w-2])<<8 | int(b[i+w-1])})
	}
	return l
}

// finish looks at everything, one thing after the other, once nothing is in progress.
func (c *Conc) finish() {
	for _, h := range c.w.hn {
		c.do(9, Op{E: "stats", H: h})
		c.do(9, Op{E: "list", H: h, N: 1000000})
	}
	if !fastBuild() {
		c.add(M{"e": "obs", "seeds": int(stats.Seeds.Load()), "leeches": int(stats.Leeches.Load()), "ips": stats.IPStats.Total(), "hashes": c.db.Hashes()})
	}
	db := c.db
	empty(db)
	// what starts on the backups make of them
	for _, e := range c.evs {
		b, ok := e["file"].([]byte)
		if !ok {
			continue
		}
		delete(e, "file")
		must(os.WriteFile(c.bak(), b, 0o644))
		d2, err := c.cfg.open("file", c.bak(), 0)
		if err != nil {
			e["ok"] = false
			continue
		}
		got := M{}
		known := 0
		for _, h := range c.w.hn {
			l := []M{}
			for _, b := range d2.PeerList(storage.Hash(c.w.hs[h]), 1000000, false) {
				l = append(l, c.r.listEntry(b))
			}
			a, b := d2.HashStats(storage.Hash(c.w.hs[h]))
			got[h] = M{"peers": l, "c": int(a), "i": int(b)}
			known += len(l)
		}
		e["got"] = got
		empty(d2)
		e["strange"] = d2.Hashes()
		stats.Seeds.Store(0)
		stats.Leeches.Store(0)
	}
	if fastBuild() {
		return
	}
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
}

func fastBuild() bool { return stats.IPStats.Total() == -1 }

// keep writes the run down unless one just like it has been.
func (c *Conc) keep() {
	h := fnv.New64a()
	b, _ := json.Marshal(c.evs)
	h.Write(b)
	c.runs++
	if k := h.Sum64(); !c.seen[k] {
		c.seen[k] = true
		c.kept++
		for _, e := range c.evs {
			c.t.add(e)
		}
	}
}

// Scen is what happens before and what overlaps.
type Scen struct {
	before  []Op
	threads [][]Op
}

func (s Scen) backup() bool {
	for _, t := range s.threads {
		for _, o := range t {
			if o.E == "backup" {
				return true
			}
		}
	}
	return false
}

func (c *Conc) run(sc Scen, choose func(int, []int, bool) int) vsync.Outcome {
	c.fresh(sc.backup())
	for _, o := range sc.before {
		if o.E == "adv" {
			c.adv(o.D)
		} else {
			c.do(0, o)
		}
	}
	var fs []func()
	for i, ops := range sc.threads {
		fs = append(fs, func() {
			for _, o := range ops {
				c.do(i+1, o)
			}
		})
	}
	out := vsync.Run(choose, fs...)
	switch {
	case out.Stuck:
		c.stuck++
		if c.stuck > 3 {
			fmt.Println("scheduler cannot follow this code")
			c.t.close()
			fmt.Println("driver done")
			os.Exit(0)
		}
	case out.Deadlock != "":
		c.add(M{"e": "deadlock", "who": out.Deadlock})
		c.keep()
		fatalStop(c.t, "deadlock")
	case out.Panic != "":
		c.add(M{"e": "panic", "what": out.Panic[:min(len(out.Panic), 1500)]})
		c.keep()
		fatalStop(c.t, "panic")
	default:
		c.finish()
		c.keep()
	}
	return out
}

// explore runs sc under every schedule with at most bound preemptions, or max of them.
func (c *Conc) explore(sc Scen, bound, max int) (n int, complete bool) {
	return c.exploreBy(func(ch func(int, []int, bool) int) vsync.Outcome { return c.run(sc, ch) }, bound, max)
}

func (c *Conc) exploreBy(run func(func(int, []int, bool) int) vsync.Outcome, bound, max int) (n int, complete bool) {
	type node struct {
		prefix []int
	}
	stack := []node{{}}
	for len(stack) > 0 && n < max {
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		i := 0
		out := run(func(step int, en []int, on bool) int {
			i = step
			if step < len(nd.prefix) {
				return nd.prefix[step]
			}
			return 0
		})
		_ = i
		n++
		if out.Stuck {
			return n, false
		}
		// alternatives at the decisions beyond the prefix
		pre := 0
		cost := make([]int, len(out.Trace)+1)
		for k, d := range out.Trace {
			cost[k] = pre
			if d.CurOn && d.Chosen != 0 {
				pre++
			}
		}
		for k := len(out.Trace) - 1; k >= len(nd.prefix); k-- {
			d := out.Trace[k]
			for a := 1; a < len(d.Enabled); a++ {
				add := 0
				if d.CurOn {
					add = 1
				}
				if cost[k]+add > bound {
					continue
				}
				p := make([]int, k+1)
				for j := 0; j < k; j++ {
					p[j] = out.Trace[j].Chosen
				}
				p[k] = a
				stack = append(stack, node{p})
			}
		}
	}
	return n, len(stack) == 0
}

// random runs sc under a random schedule with about k preemptions.
func (c *Conc) random(sc Scen, rng *rand.Rand, steps int) vsync.Outcome {
	p := []float64{0.02, 0.05, 0.15, 0.5}[rng.Intn(4)]
	return c.run(sc, func(step int, en []int, on bool) int {
		if on && rng.Float64() > p {
			return 0
		}
		return rng.Intn(len(en))
	})
}

func concWorld() *World {
	w := stdWorld(2, 4, 3, 2)
	return w
}

func sv(h, p, ip string, port int, s bool) Op {
	return Op{E: "save", H: h, P: p, IP: ip, Port: port, C: s}
}

// menu is what threads do, about torrent h1.
var concMenu = [][]Op{
	{sv("h1", "p1", "i1", 1, false)},
	{sv("h1", "p1", "i1", 1, true)},
	{sv("h1", "p1", "i2", 2, true)},
	{sv("h1", "p2", "i1", 3, true)},
	{sv("h1", "p2", "j1", 3, false)},
	{{E: "drop", H: "h1", P: "p1"}},
	{{E: "drop", H: "h1", P: "p2"}},
	{{E: "trim"}},
	{{E: "stats", H: "h1"}},
	{{E: "list", H: "h1", N: 3}},
	{{E: "listb", H: "h1", N: 2}},
	{{E: "backup"}},
	{sv("h2", "p1", "i1", 4, true)},
	{sv("h1", "p1", "i1", 5, true), {E: "stats", H: "h1"}},
	{{E: "drop", H: "h1", P: "p1"}, sv("h1", "p1", "i3", 6, false)},
	{{E: "stats", H: "h1"}, {E: "listb", H: "h1", N: 4}},
}

var concBefore = [][]Op{
	{},
	{sv("h1", "p1", "i1", 9, false)},
	{sv("h1", "p1", "i1", 9, true), {E: "adv", D: 11}},
	{sv("h1", "p1", "i1", 9, true), {E: "adv", D: 11}, sv("h1", "p2", "j1", 8, false)},
	{sv("h1", "p1", "i1", 9, true), {E: "drop", H: "h1", P: "p1"}},
	{sv("h1", "p1", "i1", 9, false), sv("h1", "p2", "i1", 8, true), sv("h2", "p1", "i1", 7, true), {E: "adv", D: 11}},
}

func randOp(rng *rand.Rand, backup *bool) Op {
	hs, ps, is := []string{"h1", "h1", "h1", "h2"}, []string{"p1", "p1", "p2", "p3"}, []string{"i1", "i1", "i2", "j1"}
	h := hs[rng.Intn(len(hs))]
	switch x := rng.Intn(20); {
	case x < 7:
		return sv(h, ps[rng.Intn(4)], is[rng.Intn(4)], 1+rng.Intn(60000), rng.Intn(2) == 0)
	case x < 11:
		return Op{E: "drop", H: h, P: ps[rng.Intn(4)]}
	case x < 14:
		return Op{E: "trim"}
	case x < 16:
		return Op{E: "stats", H: h}
	case x < 17:
		return Op{E: "list", H: h, N: 1 + rng.Intn(4), NoPid: rng.Intn(2) == 0}
	case x < 19:
		return Op{E: "listb", H: h, N: 1 + rng.Intn(4)}
	default:
		if *backup {
			*backup = false
			return Op{E: "backup"}
		}
		return Op{E: "stats", H: h}
	}
}

func randScen(rng *rand.Rand, backup bool) Scen {
	var sc Scen
	for i := rng.Intn(5); i > 0; i-- {
		o := randOp(rng, new(bool))
		sc.before = append(sc.before, o)
		if rng.Intn(2) == 0 {
			sc.before = append(sc.before, Op{E: "adv", D: []int{1, 10, 11}[rng.Intn(3)]})
		}
	}
	n := 2 + rng.Intn(3)
	may := backup
	for i := 0; i < n; i++ {
		var l []Op
		if i == 0 && backup {
			l = append(l, Op{E: "backup"})
			may = rng.Intn(2) == 0 // another one
		}
		for k := 1 + rng.Intn(2); k > 0 && len(l) < 3; k-- {
			l = append(l, randOp(rng, &may))
		}
		sc.threads = append(sc.threads, l)
	}
	return sc
}

// startup: a tracker starts from a backup while its first expiry pass runs.
func (c *Conc) startup(sc Scen, choose func(int, []int, bool) int) vsync.Outcome {
	c.fresh(true)
	for _, o := range sc.before {
		if o.E == "adv" {
			c.adv(o.D)
		} else {
			c.do(0, o)
		}
	}
	must(c.db.Backup().Save())
	now := vtime.Now()
	b, err := os.ReadFile(c.bak())
	must(err)
	empty(c.db)
	must(os.WriteFile(c.bak(), b, 0o644))
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	cfg := c.cfg
	cfg.Trim = 60
	cfg.apply("file", c.bak())
	vtime.Start(now)
	c.add(M{"e": "restart"})
	c.add(M{"e": "call", "t": 1, "op": "trim"})
	var oerr error
	out := vsync.Run(choose, func() {
		var db storage.Database
		db, oerr = storage.Open()
		c.db = db
	})
	switch {
	case out.Stuck:
		c.stuck++
		if c.stuck > 3 {
			fmt.Println("scheduler cannot follow this code")
			c.t.close()
			fmt.Println("driver done")
			os.Exit(0)
		}
	case out.Deadlock != "" || out.Panic != "" || oerr != nil:
		c.add(M{"e": "failed", "deadlock": out.Deadlock, "panic": out.Panic[:min(len(out.Panic), 1500)], "err": fmt.Sprint(oerr)})
		c.keep()
		fatalStop(c.t, "start failed")
	default:
		c.add(M{"e": "ret", "t": 1})
		c.finish()
		c.keep()
	}
	return out
}

func has2(ops []Op, e string) bool {
	for _, o := range ops {
		if o.E == e {
			return true
		}
	}
	return false
}

// stress runs sc on real goroutines, over and over.
func (c *Conc) stress(sc Scen) {
	c.par = true
	c.fresh(sc.backup())
	for _, o := range sc.before {
		if o.E == "adv" {
			c.adv(o.D)
		} else {
			c.do(0, o)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, ops := range sc.threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range ops {
				c.do(i+1, o)
			}
		}()
	}
	close(start)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(30 * time.Second):
		c.mu.Lock()
		c.evs = append(c.evs, M{"e": "deadlock", "who": "after 30 s"})
		c.mu.Unlock()
		c.keep()
		fatalStop(c.t, "deadlock")
	}
	c.finish()
	c.keep()
}

// hammer has many goroutines do operations on the same few torrents for a
// while, without a record; a torn map would end the process.
func (c *Conc) hammer(rng *rand.Rand, d time.Duration) {
	c.par = true
	c.fresh(true)
	end := time.Now().Add(d)
	var failed atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := i == 0
			for n := 0; time.Now().Before(end); n++ {
				o := randOp(r, &b)
				o.H = c.w.hn[r.Intn(len(c.w.hn))]
				h, id := storage.Hash(c.w.hs[o.H]), storage.PeerID(c.w.ps[o.P])
				switch o.E {
				case "save":
					if r.Intn(3) == 0 {
						h[5] = byte(r.Intn(200)) // grow the table
					}
					c.db.Save(c.w.ips[o.IP], uint16(o.Port), o.C, h, id)
				case "drop":
					c.db.Drop(h, id)
				case "trim":
					if n%10 == 0 {
						c.db.Trim()
					}
				case "stats":
					c.db.HashStats(h)
				case "list":
					c.db.PeerList(h, uint(o.N), o.NoPid)
				case "listb":
					a, b := c.db.PeerListBytes(h, uint(o.N))
					pools.Peerlists4.Put(a)
					pools.Peerlists6.Put(b)
				}
				if i < 2 && n%50 == 0 {
					if err := c.db.Backup().Save(); err != nil {
						failed.Store(true)
					}
				}
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(d + 30*time.Second):
		c.evs = append(c.evs, M{"e": "deadlock", "who": "hammering"})
		c.keep()
		fatalStop(c.t, "deadlock")
	}
	for i := 0; i < 256; i++ {
		for _, n := range c.w.hn {
			for _, p := range c.w.pn {
				h := storage.Hash(c.w.hs[n])
				h[5] = byte(i)
				c.db.Drop(h, storage.PeerID(c.w.ps[p]))
				c.db.Drop(storage.Hash(c.w.hs[n]), storage.PeerID(c.w.ps[p]))
			}
		}
	}
	c.do(9, Op{E: "trim"})
	c.do(9, Op{E: "backup"})
	if failed.Load() {
		c.add(M{"e": "unsaved"})
	}
	c.finish()
	c.keep()
}

func cmdConc(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	num := func(k string, d int) int {
		if v, err := strconv.Atoi(args[k]); err == nil {
			return v
		}
		return d
	}
	part, parts := num("part", 0), num("parts", 1)
	bound, max, n := num("bound", 1), num("max", 1<<30), num("n", 100)
	must(os.MkdirAll(args["dir"], 0o755))
	c := &Conc{w: concWorld(), t: newTrace(args["out"]), dir: args["dir"], cfg: concCfg, seen: map[uint64]bool{}}
	c.r = &DBRun{w: c.w, crowd: map[string]map[bool][][20]byte{}}
	c.t.add(c.w.dict())
	rng := rand.New(rand.NewSource(seed + int64(part)*7919))
	only := args["only"] // operations one of which must take part
	deadline := time.Now().Add(time.Duration(num("secs", 3600)) * time.Second)
	wanted := func(a, b []Op) bool {
		if only == "" {
			return !has2(a, "backup") && !has2(b, "backup")
		}
		return has2(a, only) || has2(b, only)
	}
	switch args["mode"] {
	case "pairs":
		k, full, total := 0, 0, 0
		for _, before := range concBefore {
			for i, a := range concMenu {
				for j := i; j < len(concMenu); j++ {
					b := concMenu[j]
					if !wanted(a, b) {
						continue
					}
					k++
					if k%parts != part {
						continue
					}
					total++
					if time.Now().After(deadline) {
						continue
					}
					if _, ok := c.explore(Scen{before, [][]Op{a, b}}, bound, max); ok {
						full++
					}
				}
			}
		}
		fmt.Printf("pairs=%d exhausted=%d bound=%d\n", total, full, bound)
	case "random":
		for i := 0; i < n && time.Now().Before(deadline); i++ {
			sc := randScen(rng, only == "backup")
			for j := 0; j < num("per", 20); j++ {
				c.random(sc, rng, 0)
			}
		}
	case "stress":
		for i := 0; i < n && time.Now().Before(deadline); i++ {
			sc := randScen(rng, only == "backup" || rng.Intn(10) == 0)
			for j := 0; j < num("per", 20); j++ {
				c.stress(sc)
			}
		}
		c.hammer(rng, 1500*time.Millisecond)
	case "startup":
		for _, before := range append(concBefore, []Op{sv("h1", "p1", "i1", 9, true), sv("h2", "p1", "i1", 9, false), {E: "adv", D: 11}, sv("h1", "p2", "i1", 8, false), sv("h2", "p3", "j1", 8, true)}) {
			c.exploreBy(func(ch func(int, []int, bool) int) vsync.Outcome { return c.startup(Scen{before: before}, ch) }, bound, max)
		}
	default:
		fatalf("conc mode %q", args["mode"])
	}
	c.t.close()
	fmt.Printf("runs=%d distinct=%d stuck=%d %s\n", c.runs, c.kept, c.stuck, strings.Repeat(".", 1))
}
