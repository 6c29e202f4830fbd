//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/netip"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	_ "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// Op is one step of a stimulus script.
type Op struct {
	E     string `json:"e"`
	H     string `json:"h,omitempty"`
	P     string `json:"p,omitempty"`
	IP    string `json:"ip,omitempty"`
	Port  int    `json:"port,omitempty"`
	C     bool   `json:"c,omitempty"`
	D     int    `json:"d,omitempty"`
	N     int    `json:"n,omitempty"`
	NoPid bool   `json:"nopid,omitempty"`
	Cfg   *Cfg   `json:"cfg,omitempty"`
}

// DBRun executes scripts against the database API and records a trace.
type DBRun struct {
	w      *World
	t      *Trace
	db     storage.Database
	cfg    Cfg
	now    int
	dir    string
	crowd  map[string]map[bool][][20]byte // torrent -> seeds?/leeches -> ids
	throng []storage.Hash                 // torrents of one anonymous peer each
	ever   map[string][][20]byte          // torrent -> every id its crowd has had
	ncr    int
	nprobe int
	drain  bool // keep IPStats clean between segments
}

var crowdAddr = netip.MustParseAddr("100.64.0.1")

func stdWorld(nh, np, n4, n6 int) *World {
	w := newWorld()
	for i := 1; i <= nh; i++ {
		var b [20]byte
		for j := range b {
			b[j] = byte(i*31 + j*7)
		}
		switch i {
		case 1: // differs from h2 in the last byte only
			b = [20]byte{}
		case 2:
			b = [20]byte{}
			b[19] = 1
		case 3: // delimiters of the wire formats
			copy(b[:], "&=%?+ /\r\n:e\x00\xff#d12ei")
		case 4: // what would be decoded again
			copy(b[:], "%25%2541%3D+%2B%%41%")
		}
		w.addHash(fmt.Sprintf("h%d", i), b)
	}
	for i := 1; i <= np; i++ {
		var b [20]byte
		copy(b[:], "-VF0001-")
		b[8] = byte(i >> 8)
		b[19] = byte(i)
		switch i {
		case 1:
			b = [20]byte{}
		case 2:
			b = [20]byte{}
			b[0] = 0x80
		case 5:
			copy(b[:], "+%2B%41%%41%2525%3d&")
		}
		w.addPeer(fmt.Sprintf("p%d", i), b)
	}
	for i := 1; i <= n4; i++ {
		w.addIP(fmt.Sprintf("i%d", i), netip.AddrFrom4([4]byte{127, byte(i >> 8), 0, byte(i)}))
	}
	for i := 1; i <= n6; i++ {
		var a [16]byte
		a[0], a[1], a[14], a[15] = 0x20, 0x01, byte(i>>8), byte(i)
		if i == 1 {
			a = [16]byte{15: 1} // ::1
		}
		w.addIP(fmt.Sprintf("j%d", i), netip.AddrFrom16(a))
	}
	return w
}

func (r *DBRun) bakPath() string { return filepath.Join(r.dir, "trakx.db") }

var throngID = storage.PeerID{'t', 'h', 'r', 'o', 'n', 'g'}

func (r *DBRun) drainAll() {
	if r.db == nil {
		return
	}
	for _, h := range r.throng {
		r.db.Drop(h, throngID)
	}
	for _, h := range r.w.hn {
		for _, p := range r.w.pn {
			r.db.Drop(storage.Hash(r.w.hs[h]), storage.PeerID(r.w.ps[p]))
		}
		for _, id := range r.ever[h] {
			r.db.Drop(storage.Hash(r.w.hs[h]), storage.PeerID(id))
		}
	}
}

func (r *DBRun) ids(h string) map[bool][][20]byte {
	if r.crowd[h] == nil {
		r.crowd[h] = map[bool][][20]byte{}
	}
	return r.crowd[h]
}

func (r *DBRun) listEntry(b []byte) M {
	d, ok := bdict(string(b))
	if !ok {
		return M{"p": "?malformed", "ip": "?", "port": -1}
	}
	e := M{"p": "-", "ip": "?", "port": -1}
	if v, ok := get(d, "peer id"); ok {
		s, _ := v.(string)
		e["p"] = r.w.peerName([]byte(s))
	}
	if v, ok := get(d, "ip"); ok {
		s, _ := v.(string)
		e["ip"] = r.w.ipName(s)
	}
	if v, ok := get(d, "port"); ok {
		e["port"], _ = v.(int64)
	}
	return e
}

func (w *World) compact4(b []byte) []M {
	l := []M{}
	for i := 0; i+6 <= len(b); i += 6 {
		l = append(l, M{"p": "-", "ip": w.addrName(netip.AddrFrom4([4]byte(b[i : i+4]))), "port": int(b[i+4])<<8 | int(b[i+5])})
	}
	if len(b)%6 != 0 {
		l = append(l, M{"p": "?", "ip": "?trailing", "port": len(b) % 6})
	}
	return l
}

func (w *World) compact6(b []byte) []M {
	l := []M{}
	for i := 0; i+18 <= len(b); i += 18 {
		l = append(l, M{"p": "-", "ip": w.addrName(netip.AddrFrom16([16]byte(b[i : i+16]))), "port": int(b[i+16])<<8 | int(b[i+17])})
	}
	if len(b)%18 != 0 {
		l = append(l, M{"p": "?", "ip": "?trailing", "port": len(b) % 18})
	}
	return l
}

func (r *DBRun) hash(h string) storage.Hash { return storage.Hash(r.w.hs[h]) }

// pass lets d seconds go by, the first jump of them at once.
func pass(d, jump int) {
	if d < 0 {
		jump = d
	}
	if jump != 0 {
		vtime.Jump(secs(jump))
	}
	vtime.Advance(secs(d - jump))
}

// do executes one operation and appends its event.
func (r *DBRun) do(o Op) {
	switch o.E {
	case "reset":
		r.drainAll()
		os.Remove(r.bakPath())
		r.cfg, r.now, r.crowd, r.ever = *o.Cfg, 0, map[string]map[bool][][20]byte{}, nil
		r.throng = nil
		db, err := r.cfg.open("file", r.bakPath(), 0)
		must(err)
		r.db = db
		r.t.add(M{"e": "reset", "cfg": r.cfg})
	case "save":
		r.db.Save(r.w.ips[o.IP], uint16(o.Port), o.C, r.hash(o.H), storage.PeerID(r.w.ps[o.P]))
		r.t.add(M{"e": "save", "h": o.H, "p": o.P, "ip": o.IP, "port": o.Port, "c": o.C})
	case "drop":
		r.db.Drop(r.hash(o.H), storage.PeerID(r.w.ps[o.P]))
		r.t.add(M{"e": "drop", "h": o.H, "p": o.P})
	case "adv":
		r.now += o.D
		pass(o.D, o.N)
		r.t.add(M{"e": "adv", "d": o.D})
	case "advtrim":
		r.now += o.D
		pass(o.D, o.N)
		r.t.add(M{"e": "advtrim", "d": o.D, "jump": o.N})
	case "trim":
		r.db.Trim()
		r.t.add(M{"e": "trim"})
	case "stats":
		c, i := r.db.HashStats(r.hash(o.H))
		r.t.add(M{"e": "stats", "h": o.H, "c": int(c), "i": int(i)})
	case "list":
		l := []M{}
		for _, b := range r.db.PeerList(r.hash(o.H), uint(o.N), o.NoPid) {
			l = append(l, r.listEntry(b))
		}
		r.t.add(M{"e": "list", "h": o.H, "n": o.N, "nopid": o.NoPid, "peers": l})
	case "listb":
		p4, p6 := r.db.PeerListBytes(r.hash(o.H), uint(o.N))
		r.t.add(M{"e": "listb", "h": o.H, "n": o.N, "v4": r.w.compact4(p4), "v6": r.w.compact6(p6)})
		pools.Peerlists4.Put(p4)
		pools.Peerlists6.Put(p6)
	case "dump":
		l := []M{}
		for _, b := range r.db.PeerList(r.hash(o.H), 1<<30, false) {
			l = append(l, r.listEntry(b))
		}
		r.t.add(M{"e": "dump", "h": o.H, "peers": l})
	case "obs":
		r.t.add(M{"e": "obs", "seeds": stats.Seeds.Load(), "leeches": stats.Leeches.Load(), "ips": stats.IPStats.Total(), "hashes": r.db.Hashes()})
	case "crowdjoin":
		ids := r.ids(o.H)
		for i := 0; i < o.N; i++ {
			r.ncr++
			var id [20]byte
			copy(id[:], "crowd")
			id[16], id[17], id[18], id[19] = byte(r.ncr>>24), byte(r.ncr>>16), byte(r.ncr>>8), byte(r.ncr)
			r.db.Save(crowdAddr, uint16(1+i%60000), o.C, r.hash(o.H), storage.PeerID(id))
			ids[o.C] = append(ids[o.C], id)
			if r.ever == nil {
				r.ever = map[string][][20]byte{}
			}
			r.ever[o.H] = append(r.ever[o.H], id)
		}
		r.t.add(M{"e": "crowdjoin", "h": o.H, "n": o.N, "c": o.C})
	case "throng":
		for i := 0; i < o.N; i++ {
			h := storage.Hash{'t', 'h', 'r', 'o', 'n', 'g'}
			n := len(r.throng)
			h[0], h[16], h[17], h[18], h[19] = byte(n), byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
			r.throng = append(r.throng, h)
			r.db.Save(crowdAddr, uint16(1+n%60000), o.C, h, throngID)
		}
		r.t.add(M{"e": "throng", "h": "throng", "n": o.N, "c": o.C})
	case "thronglook":
		var c, i uint32
		for _, h := range r.throng {
			c1, i1 := r.db.HashStats(h)
			c, i = c+c1, i+i1
		}
		r.t.add(M{"e": "thronglook", "h": "throng", "c": c, "i": i})
	case "crowdflip":
		ids := r.ids(o.H)
		from := ids[!o.C]
		n := min(o.N, len(from))
		for _, id := range from[:n] {
			r.db.Save(crowdAddr, 7, o.C, r.hash(o.H), storage.PeerID(id))
		}
		ids[o.C] = append(ids[o.C], from[:n]...)
		ids[!o.C] = from[n:]
		r.t.add(M{"e": "crowdflip", "h": o.H, "n": n, "c": o.C})
	case "crowdleave":
		ids := r.ids(o.H)
		n := min(o.N, len(ids[o.C]))
		for _, id := range ids[o.C][:n] {
			r.db.Drop(r.hash(o.H), storage.PeerID(id))
		}
		ids[o.C] = ids[o.C][n:]
		r.t.add(M{"e": "crowdleave", "h": o.H, "n": n, "c": o.C})
	case "backup":
		err := r.db.Backup().Save()
		r.t.add(M{"e": "backup", "ok": err == nil})
	case "autobackup":
		// no change for at least one interval: the periodic backup has to hold everything
		r.t.add(M{"e": "autobackup"})
	case "restart":
		b, err := os.ReadFile(r.bakPath())
		r.drainAll()
		if err == nil {
			must(os.WriteFile(r.bakPath(), b, 0o644))
		}
		db, err := r.cfg.open("file", r.bakPath(), r.now)
		r.t.add(M{"e": "restart", "ok": err == nil, "err": fmt.Sprint(err)})
		if err != nil {
			fatalStop(r.t, "restart failed: "+err.Error())
		}
		r.db = db
	default:
		fatalf("unknown op %q", o.E)
	}
}

// fatalStop ends a run whose last event the specification is going to reject.
func fatalStop(t *Trace, why string) {
	t.close()
	fmt.Fprintln(os.Stderr, "driver stops early:", why)
	os.Exit(0)
}

// ---- random histories

type profile struct {
	segs, ops      int
	sched          float64 // fraction of segments with scheduled passes
	restart, crowd float64
	big            bool
	numw           []int
	autob          float64
}

func genDB(rng *rand.Rand, w *World, pf profile, emit func(Op)) {
	for s := 0; s < pf.segs; s++ {
		c := defaultCfg
		c.Expiry = []int{5, 10, 25, 2400}[rng.Intn(4)]
		c.NumDef, c.NumLim = 3, 5
		if rng.Intn(3) == 0 {
			n := [][2]int{{75, 200}, {5, 3}, {2, 0}}[rng.Intn(3)]
			c.NumDef, c.NumLim = n[0], n[1]
		}
		sched := rng.Float64() < pf.sched
		c.Trim, c.Backup = 0, 0
		autob := !sched && rng.Float64() < pf.autob
		if sched {
			c.Trim = []int{1, 3, 10, 60}[rng.Intn(4)]
		}
		if autob {
			c.Backup = []int{2, 10, 600}[rng.Intn(3)]
		}
		emit(Op{E: "reset", Cfg: &c})
		nh := 1 + rng.Intn(len(w.hn))
		np := 1 + rng.Intn(len(w.pn))
		hs, ps := w.hn[:nh], w.pn[:np]
		if rng.Intn(2) == 0 {
			o := rng.Intn(len(w.hn) - nh + 1)
			hs = w.hn[o : o+nh]
		}
		// which families appear
		var ips []string
		switch rng.Intn(4) {
		case 0:
			ips = w.in4[:1+rng.Intn(len(w.in4))]
		case 1:
			ips = w.in6[:1+rng.Intn(len(w.in6))]
		default:
			ips = append(append([]string{}, w.in4[:1+rng.Intn(len(w.in4))]...), w.in6[:1+rng.Intn(len(w.in6))]...)
		}
		seen := map[string]int{} // h/p -> time, to choose unambiguous instants
		now := 0
		crowd := !sched && !autob && rng.Float64() < pf.crowd
		h := func() string { return hs[rng.Intn(len(hs))] }
		p := func() string { return ps[rng.Intn(len(ps))] }
		adv := func(d int) {
			now += d
			jump := 0
			if iv := max(c.Trim, c.Backup); iv > 0 && d > iv && rng.Intn(3) == 0 {
				jump = 1 + rng.Intn(d-iv)
			}
			if sched {
				emit(Op{E: "advtrim", D: d, N: jump})
			} else {
				emit(Op{E: "adv", D: d, N: jump})
			}
		}
		settled := func(d int) bool {
			for _, t := range seen {
				if a := now + d - t; a > c.Expiry && a <= c.Expiry+c.Trim {
					return false
				}
			}
			return true
		}
		probe := func() {
			switch rng.Intn(6) {
			case 0, 1:
				emit(Op{E: "stats", H: h()})
			case 2:
				emit(Op{E: "list", H: h(), N: pf.numw[rng.Intn(len(pf.numw))], NoPid: rng.Intn(2) == 0})
			case 3:
				emit(Op{E: "listb", H: h(), N: pf.numw[rng.Intn(len(pf.numw))]})
			case 4:
				emit(Op{E: "obs"})
			case 5:
				emit(Op{E: "dump", H: h()})
			}
		}
		for i := 0; i < pf.ops; i++ {
			switch x := rng.Intn(100); {
			case x < 50:
				hh, pp := h(), p()
				seen[hh+pp] = now
				emit(Op{E: "save", H: hh, P: pp, IP: ips[rng.Intn(len(ips))], Port: []int{1, 80, 255, 256, 6881, 65535, 1 + rng.Intn(65535)}[rng.Intn(7)], C: rng.Intn(2) == 0})
			case x < 68:
				hh, pp := h(), p()
				delete(seen, hh+pp)
				emit(Op{E: "drop", H: hh, P: pp})
			case x < 82:
				if sched {
					ds := []int{}
					for _, d := range []int{1, 2, c.Trim, c.Expiry, c.Expiry - 1, c.Expiry + c.Trim + 1, 2*c.Expiry + c.Trim + 1, rng.Intn(2*c.Expiry + c.Trim)} {
						if d > 0 && settled(d) {
							ds = append(ds, d)
						}
					}
					if len(ds) > 0 {
						adv(ds[rng.Intn(len(ds))])
						for k, t := range seen {
							if now-t > c.Expiry {
								delete(seen, k)
							}
						}
						for _, hh := range hs {
							emit(Op{E: "dump", H: hh})
						}
						emit(Op{E: "obs"})
					}
				} else if !crowd && !autob && rng.Intn(12) == 0 { // somebody sets the clock back
					adv(-[]int{1, c.Expiry, 1 + rng.Intn(2*c.Expiry)}[rng.Intn(3)])
				} else if !crowd {
					adv([]int{0, 1, c.Expiry / 2, c.Expiry, c.Expiry + 1, rng.Intn(c.Expiry + 2)}[rng.Intn(6)])
				}
			case x < 90:
				if !sched {
					emit(Op{E: "trim"})
					for k, t := range seen {
						if now-t > c.Expiry {
							delete(seen, k)
						}
					}
					emit(Op{E: "obs"})
				}
			case x < 92 && rng.Float64() < pf.restart:
				emit(Op{E: "backup"})
				if rng.Intn(2) == 0 { // what happens after the backup is lost by the restart
					hh, pp := h(), p()
					seen[hh+pp] = now
					emit(Op{E: "save", H: hh, P: pp, IP: ips[0], Port: 9, C: rng.Intn(2) == 0})
					hh, pp = h(), p()
					delete(seen, hh+pp)
					emit(Op{E: "drop", H: hh, P: pp})
				}
				if sched {
					break
				}
				emit(Op{E: "restart"})
				for _, hh := range hs {
					emit(Op{E: "stats", H: hh})
					if !crowd {
						emit(Op{E: "dump", H: hh})
					}
				}
				emit(Op{E: "obs"})
			case x < 94 && crowd:
				n := []int{1, 5, 300}[rng.Intn(3)]
				switch rng.Intn(4) {
				case 0, 1:
					emit(Op{E: "crowdjoin", H: hs[0], N: n, C: rng.Intn(2) == 0})
				case 2:
					emit(Op{E: "crowdflip", H: hs[0], N: n, C: rng.Intn(2) == 0})
				case 3:
					emit(Op{E: "crowdleave", H: hs[0], N: n, C: rng.Intn(2) == 0})
				}
				emit(Op{E: "stats", H: hs[0]})
				emit(Op{E: "obs"})
			case x < 97 && autob:
				adv(c.Backup * (1 + rng.Intn(4)))
				emit(Op{E: "autobackup"})
				emit(Op{E: "restart"})
				for _, hh := range hs {
					emit(Op{E: "stats", H: hh})
					emit(Op{E: "dump", H: hh})
				}
			}
			if rng.Intn(100) < 60 && !crowd {
				probe()
			}
		}
		// closing: everything, then each member's status by removing it
		for _, hh := range hs {
			if !crowd {
				emit(Op{E: "dump", H: hh})
			}
		}
		emit(Op{E: "obs"})
		for _, hh := range hs {
			for _, pp := range ps {
				if rng.Intn(3) > 0 {
					emit(Op{E: "drop", H: hh, P: pp})
					emit(Op{E: "stats", H: hh})
				}
			}
		}
		emit(Op{E: "obs"})
	}
}

func cmdDB(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	n, _ := strconv.Atoi(args["n"])
	rng := rand.New(rand.NewSource(seed))
	dir := args["dir"]
	must(os.MkdirAll(dir, 0o755))
	w := stdWorld(4, 12, 7, 5)
	if args["world"] == "small" {
		w = stdWorld(2, 3, 2, 2)
	}
	if args["world"] == "big" {
		w = stdWorld(2, 260, 240, 240)
	}
	r := &DBRun{w: w, t: newTrace(args["out"]), dir: dir, crowd: map[string]map[bool][][20]byte{}}
	r.t.add(w.dict())
	start := time.Now()
	if f := args["script"]; f != "" {
		b, err := os.ReadFile(f)
		must(err)
		dec := json.NewDecoder(bytesReader(b))
		for dec.More() {
			var o Op
			must(dec.Decode(&o))
			r.do(o)
			if args["probe"] != "" {
				r.probe(o)
			}
		}
	}
	pf := profile{segs: n, ops: 60, sched: 0.3, restart: 0.5, crowd: 0.1, numw: []int{0, 1, 2, 3, 5, 6, 50, 1000}, autob: 0.2}
	if args["world"] == "big" {
		pf = profile{segs: n, ops: 30, numw: []int{1, 75, 199, 200, 201, 1000}}
	}
	switch args["profile"] {
	case "expiry":
		pf.sched = 0.7
	case "restart":
		pf.restart, pf.autob, pf.sched = 1, 0.4, 0.1
	case "crowd":
		pf.crowd = 0.8
	case "huge":
		c := defaultCfg
		c.Trim = 0
		r.hugeCrowd(c)
		pf.segs = 0
	}
	if args["world"] == "big" {
		r.bigLists(rng, n)
	} else {
		genDB(rng, w, pf, r.do)
	}
	r.drainAll()
	r.t.close()
	fmt.Printf("events=%d wall=%.1f\n", r.t.n, time.Since(start).Seconds())
}

// probe looks at everything an operation may have changed.
func (r *DBRun) probe(o Op) {
	hs := []string{"h1", "h2"}
	if o.H != "" {
		hs = []string{o.H}
	}
	for _, h := range hs {
		r.do(Op{E: "stats", H: h})
		r.do(Op{E: "dump", H: h})
		r.nprobe++
		switch r.nprobe % 3 {
		case 0:
			r.do(Op{E: "listb", H: h, N: r.nprobe / 3 % 4})
		case 1:
			r.do(Op{E: "list", H: h, N: r.nprobe / 3 % 4, NoPid: r.nprobe%2 == 0})
		}
	}
	if o.H != "" { // the other torrents are untouched
		for _, h := range []string{"h1", "h2"} {
			if h != o.H {
				r.do(Op{E: "dump", H: h})
			}
		}
	}
	r.do(Op{E: "obs"})
}

// hugeCrowd: swarms and addresses beyond 16 bits.
func (r *DBRun) hugeCrowd(c Cfg) {
	r.do(Op{E: "reset", Cfg: &c})
	look := func() {
		r.do(Op{E: "stats", H: "h1"})
		r.do(Op{E: "stats", H: "h2"})
		r.do(Op{E: "obs"})
	}
	r.do(Op{E: "save", H: "h2", P: "p1", IP: "i1", Port: 5})
	r.do(Op{E: "crowdjoin", H: "h1", N: 65534, C: true})
	look()
	for i := 0; i < 3; i++ {
		r.do(Op{E: "crowdjoin", H: "h1", N: 1, C: true})
		look()
	}
	r.do(Op{E: "crowdjoin", H: "h1", N: 70000})
	look()
	r.do(Op{E: "crowdflip", H: "h1", N: 5000, C: false})
	look()
	r.do(Op{E: "throng", N: 40000, C: true})
	look()
	r.do(Op{E: "throng", N: 30000})
	look()
	r.do(Op{E: "thronglook"})
	r.do(Op{E: "trim"})
	r.do(Op{E: "backup"})
	r.do(Op{E: "restart"})
	r.do(Op{E: "thronglook"})
	look()
	r.do(Op{E: "adv", D: c.Expiry})
	r.do(Op{E: "save", H: "h2", P: "p2", IP: "i1", Port: 5, C: true})
	r.do(Op{E: "trim"})
	look()
	r.do(Op{E: "thronglook"})
	r.do(Op{E: "adv", D: 1})
	r.do(Op{E: "trim"})
	look()
	r.do(Op{E: "thronglook"})
}

// bigLists: swarms larger than every bound, in one and in both families.
func (r *DBRun) bigLists(rng *rand.Rand, n int) {
	for s := 0; s < n; s++ {
		c := defaultCfg
		c.Trim = 0
		if s%2 == 1 {
			c.NumDef, c.NumLim = 75, 100
		}
		r.do(Op{E: "reset", Cfg: &c})
		n4 := []int{240, 240, 30, 0, 205}[s%5]
		for i, p := range r.w.pn {
			ip := r.w.in6[i%len(r.w.in6)]
			if i < n4 {
				ip = r.w.in4[i%len(r.w.in4)]
			}
			r.do(Op{E: "save", H: "h1", P: p, IP: ip, Port: 1 + rng.Intn(65535), C: i%3 == 0})
		}
		if s%5 == 1 { // a second torrent with the other mix
			for i, p := range r.w.pn[:220] {
				ip := r.w.in6[i]
				r.do(Op{E: "save", H: "h2", P: p, IP: ip, Port: 7})
			}
		}
		for _, k := range []int{0, 1, 74, 75, 76, 99, 100, 101, 199, 200, 201, 259, 260, 261, 5000} {
			r.do(Op{E: "listb", H: "h1", N: k})
			r.do(Op{E: "list", H: "h1", N: k, NoPid: k%2 == 0})
			r.do(Op{E: "listb", H: "h2", N: k})
		}
		r.do(Op{E: "stats", H: "h1"})
	}
}
