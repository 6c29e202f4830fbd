//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"time"

	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// PGRun drives a database that keeps its backups in Postgres.
type PGRun struct {
	*DBRun
	g    *rand.Rand
	pg   *fakePG
	slow int // seconds to pass during an open
}

func (r *PGRun) dsn() string {
	return fmt.Sprintf("postgres://u:p@127.0.0.1:%d/trakx?sslmode=disable", r.pg.port)
}

func (r *PGRun) rowList() []M {
	r.pg.mu.Lock()
	defer r.pg.mu.Unlock()
	l := []M{}
	for _, x := range r.pg.rows {
		l = append(l, M{"id": x.id, "ts": int(x.ts.Sub(clockBase) / time.Millisecond)})
	}
	if r.pg.odd != "" {
		fatalf("a statement the stand-in for Postgres does not know: %s", r.pg.odd)
	}
	return l
}

// open starts a tracker's database; it may sleep in the hope of a newer row,
// and in the meantime one may come in, or the server may fail.
func (r *PGRun) open(fault string, late *pgRow, then string) {
	r.pg.hangUp() // whoever was connected is gone
	r.drainAll()
	r.db, r.crowd = nil, map[string]map[bool][][20]byte{} // what is loaded has a crowd the driver no longer knows
	r.pg.setFault(fault)
	type res struct {
		db  storage.Database
		err error
	}
	done := make(chan res, 1)
	go func() {
		db, err := r.cfg.open("pg", r.dsn(), r.now)
		done <- res{db, err}
	}()
	want := 0
	var x res
	waited := false
	end := time.Now().Add(30 * time.Second)
loop:
	for {
		select {
		case x = <-done:
			break loop
		case <-time.After(20 * time.Millisecond):
		}
		if time.Now().After(end) {
			x.err = fmt.Errorf("the open does not come back")
			break
		}
		if vtime.Sleepers() > want && !waited {
			// somebody sleeps: the open, if it has not come back by now
			select {
			case x = <-done:
				break loop
			case <-time.After(100 * time.Millisecond):
			}
			waited = true
			if late != nil {
				r.put(*late)
			}
			if then != "" {
				r.pg.setFault(then)
				if then == "refuse" {
					r.pg.hangUp()
				}
			}
		}
		if waited {
			r.now++
			vtime.Move(time.Second)
			r.t.add(M{"e": "adv", "d": 1})
		}
	}
	if then != "" && waited && r.pg.hasFired() {
		fault = then
	}
	r.pg.setFault("")
	r.t.add(M{"e": "pgopen", "ok": x.err == nil, "fault": fault, "waited": waited, "rows": r.rowList(), "err": fmt.Sprint(x.err)})
	if x.err == nil {
		r.db = x.db
	}
}

// put is another tracker's save: a row with the given content and time.
func (r *PGRun) put(x pgRow) {
	r.pg.mu.Lock()
	r.pg.nextID++
	of := x.id
	x.id = r.pg.nextID
	r.pg.rows = append(r.pg.rows, x)
	r.pg.mu.Unlock()
	r.t.add(M{"e": "pgput", "id": x.id, "of": of, "ts": int(x.ts.Sub(clockBase) / time.Millisecond)})
}

func (r *PGRun) save(fault string) {
	r.pg.setFault(fault)
	done := make(chan error, 1)
	go func() { done <- r.db.Backup().Save() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		err = fmt.Errorf("the save does not come back")
	}
	r.pg.setFault("")
	r.t.add(M{"e": "pgsave", "ok": err == nil, "fault": fault, "rows": r.rowList(), "err": fmt.Sprint(err)})
}

func (r *PGRun) look() {
	for _, h := range r.w.hn {
		r.do(Op{E: "stats", H: h})
		r.do(Op{E: "dump", H: h})
	}
	r.do(Op{E: "obs"})
}

func (r *PGRun) change() {
	g, w := r.g, r.w
	h, p := w.hn[g.Intn(len(w.hn))], w.pn[g.Intn(len(w.pn))]
	switch k := g.Intn(10); {
	case k < 7:
		ips := w.in4
		if g.Intn(2) == 0 {
			ips = w.in6
		}
		r.do(Op{E: "save", H: h, P: p, IP: ips[g.Intn(len(ips))], Port: 1 + g.Intn(65535), C: g.Intn(2) == 0})
	case k < 9:
		r.do(Op{E: "drop", H: h, P: p})
	default:
		r.do(Op{E: "trim"})
	}
}

func (r *PGRun) segment(big bool) {
	g := r.g
	c := defaultCfg
	c.Trim, c.Backup = 0, 0
	c.Expiry = []int{2400, 2400, 100000}[g.Intn(3)]
	auto := g.Intn(4) == 0
	if auto {
		c.Backup = []int{5, 60, 600}[g.Intn(3)]
	}
	r.drainAll()
	r.cfg, r.now, r.crowd, r.ever = c, 0, map[string]map[bool][][20]byte{}, nil
	r.pg.mu.Lock()
	r.pg.rows, r.pg.table = nil, false
	r.pg.mu.Unlock()
	r.t.add(M{"e": "reset", "cfg": r.cfg})
	r.open("", nil, "")
	if r.db == nil {
		return
	}
	r.look()
	if big {
		r.do(Op{E: "crowdjoin", H: "h1", N: 2000 + g.Intn(60000), C: g.Intn(2) == 0})
	}
	step := func(d int) {
		r.now += d
		vtime.Advance(secs(d))
		if auto && r.db != nil {
			r.t.add(M{"e": "pgadv", "d": d, "rows": r.rowList()})
		} else {
			r.t.add(M{"e": "adv", "d": d})
		}
	}
	n := 6 + g.Intn(12)
	for i := 0; i < n; i++ {
		for k := g.Intn(5); k > 0; k-- {
			r.change()
		}
		if i == 1 && g.Intn(2) == 0 { // everybody leaves
			for _, h := range r.w.hn {
				for _, p := range r.w.pn {
					r.do(Op{E: "drop", H: h, P: p})
				}
			}
			if len(r.crowd["h1"]) > 0 {
				r.do(Op{E: "crowdleave", H: "h1", N: 1 << 20, C: true})
				r.do(Op{E: "crowdleave", H: "h1", N: 1 << 20, C: false})
			}
			if g.Intn(2) == 0 {
				r.do(Op{E: "trim"})
			}
		}
		step(1 + g.Intn(20))
		switch k := g.Intn(20); {
		case k < 7:
			r.save("")
		case k < 8:
			for m := 0; m < 8+g.Intn(8); m++ { // many in a row
				if g.Intn(3) == 0 {
					r.change()
				}
				step(1)
				r.save("")
			}
		case k < 10:
			r.save([]string{"insert", "insert-prepare", "cut-insert", "after-insert", "refuse"}[g.Intn(5)])
			step(1)
			if g.Intn(2) == 0 {
				r.save("")
			}
		case k < 12:
			r.foreign(r.now*1000 - 1000*(1+g.Intn(4000)))
		case k < 13:
			r.foreign(r.now*1000 + 500)
			step(1)
		case k < 15:
			d := []int{550, 650, 3000, 100000}[g.Intn(4)]
			if auto {
				d = min(d, 25*c.Backup)
			}
			step(d)
		}
		if g.Intn(4) == 0 {
			if g.Intn(3) == 0 {
				r.open([]string{"refuse", "auth", "create", "select", "cut-select", "cut-create"}[g.Intn(6)], nil, "")
				if r.db != nil {
					return // the trace ends with an open that ought to have failed
				}
				step(1 + g.Intn(5))
			}
			var late *pgRow
			if g.Intn(2) == 0 {
				late = r.pickRow(r.now*1000 + 3500)
			}
			then := ""
			if g.Intn(4) == 0 {
				then = []string{"select", "cut-select", "refuse"}[g.Intn(3)]
			}
			r.open("", late, then)
			if r.db == nil && then != "" {
				step(1)
				r.open("", nil, "")
			}
			if r.db == nil {
				return
			}
			r.look()
			step(1)
		}
	}
	if big {
		r.look()
	}
}

func (r *PGRun) pickRow(ms int) *pgRow {
	r.pg.mu.Lock()
	defer r.pg.mu.Unlock()
	if len(r.pg.rows) == 0 {
		return nil
	}
	x := r.pg.rows[r.g.Intn(len(r.pg.rows))]
	x.ts = clockBase.Add(time.Duration(ms)*time.Millisecond + 250*time.Millisecond)
	return &x
}

func (r *PGRun) foreign(ms int) {
	if x := r.pickRow(ms); x != nil {
		for _, y := range r.pg.rows {
			if y.ts.Equal(x.ts) {
				return
			}
		}
		r.put(*x)
	}
}

func cmdPG(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	n, _ := strconv.Atoi(args["n"])
	must(os.MkdirAll(args["dir"], 0o755))
	w := stdWorld(3, 6, 4, 4)
	r := &PGRun{DBRun: &DBRun{w: w, t: newTrace(args["out"]), dir: args["dir"], crowd: map[string]map[bool][][20]byte{}}, g: rand.New(rand.NewSource(seed))}
	r.pg = newFakePG(vtime.Now)
	r.t.add(w.dict())
	for i := 0; i < n; i++ {
		r.segment(i%10 == 9)
	}
	r.drainAll()
	r.t.close()
	fmt.Printf("events=%d\n", r.t.n)
}
