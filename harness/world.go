//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"net/netip"
	"time"

	"go.uber.org/zap"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz_verif/vtime"
)

// World names torrents, peers and addresses.
type World struct {
	hs, ps   map[string][20]byte
	ips      map[string]netip.Addr
	pname    map[[20]byte]string
	hname    map[[20]byte]string
	ipname   map[netip.Addr]string
	hn, pn   []string
	in4, in6 []string
}

func newWorld() *World {
	return &World{hs: map[string][20]byte{}, ps: map[string][20]byte{}, ips: map[string]netip.Addr{},
		pname: map[[20]byte]string{}, hname: map[[20]byte]string{}, ipname: map[netip.Addr]string{crowdAddr: "crowd"}}
}

func (w *World) addHash(n string, b [20]byte) { w.hs[n] = b; w.hname[b] = n; w.hn = append(w.hn, n) }
func (w *World) addPeer(n string, b [20]byte) { w.ps[n] = b; w.pname[b] = n; w.pn = append(w.pn, n) }
func (w *World) addIP(n string, a netip.Addr) {
	w.ips[n] = a
	w.ipname[a] = n
	if a.Is4() {
		w.in4 = append(w.in4, n)
	} else {
		w.in6 = append(w.in6, n)
	}
}

func (w *World) peerName(b []byte) string {
	if len(b) == 20 {
		if n, ok := w.pname[[20]byte(b)]; ok {
			return n
		}
	}
	return "?" + hex.EncodeToString(b)
}

func (w *World) ipName(s string) string {
	if a, err := netip.ParseAddr(s); err == nil {
		if n, ok := w.ipname[a]; ok {
			return n
		}
	}
	return "?" + s
}

func (w *World) addrName(a netip.Addr) string {
	if n, ok := w.ipname[a]; ok {
		return n
	}
	return "?" + a.String()
}

func (w *World) dict() M {
	hs, ps, ips, txt := M{}, M{}, M{}, M{}
	for n, b := range w.hs {
		b := b
		hs[n] = ints(b[:])
	}
	for n, b := range w.ps {
		b := b
		ps[n] = ints(b[:])
	}
	for n, a := range w.ips {
		ips[n] = ints(a.AsSlice())
		txt[n] = a.String()
	}
	return M{"e": "dict", "hs": hs, "ps": ps, "ips": ips, "txt": txt}
}

// Cfg is the configuration of one segment, as the specification sees it.
type Cfg struct {
	Expiry     int  `json:"expiry"`
	Trim       int  `json:"trim"`
	NumDef     int  `json:"numdef"`
	NumLim     int  `json:"numlim"`
	Base       int  `json:"base"`
	Fuzz       int  `json:"fuzz"`
	ConnExpiry int  `json:"connexpiry"`
	ConnTrim   int  `json:"conntrim"`
	Validate   bool `json:"validate"`
	Backup     int  `json:"backup"`
	Heroku     bool `json:"heroku"`

	CrowdIP []int `json:"crowdip,omitempty"` // if not crowdAddr
}

var defaultCfg = Cfg{Expiry: 2400, Trim: 600, NumDef: 75, NumLim: 200, Base: 1800, Fuzz: 300, ConnExpiry: 1800, ConnTrim: 600, Validate: true}

var nApplied int

func secs(n int) time.Duration { return time.Duration(n) * time.Second }

var clockBase = time.Unix(1_900_022_400, 0) // midnight UTC

// apply makes c the configuration of the code under test.
func (c Cfg) apply(backupType, backupPath string) {
	conf := config.Config
	if conf == nil {
		conf = new(config.Configuration)
		config.Config = conf
	}
	config.Logger = zap.NewNop()
	conf.LogLevel = "error"
	conf.ExpvarInterval = 0
	conf.Announce.Base, conf.Announce.Fuzz = secs(c.Base), secs(c.Fuzz)
	conf.Numwant.Default, conf.Numwant.Limit = uint(c.NumDef), uint(c.NumLim)
	conf.DB.Type = "gomap"
	conf.DB.Expiry, conf.DB.Trim = secs(c.Expiry), secs(c.Trim)
	conf.DB.Backup.Type, conf.DB.Backup.Path = backupType, backupPath
	conf.DB.Backup.Frequency = secs(c.Backup)
	conf.UDP.ConnDB.Validate = c.Validate
	conf.UDP.ConnDB.Expiry, conf.UDP.ConnDB.Trim = secs(c.ConnExpiry), secs(c.ConnTrim)
	// room made in advance, not a bound
	conf.UDP.ConnDB.Size = []uint64{0, 1, 2, 4, 1 << 14}[nApplied%5]
	nApplied++
}

// open starts a database under c with the virtual clock at start seconds.
func (c Cfg) open(backupType, backupPath string, at int) (storage.Database, error) {
	c.apply(backupType, backupPath)
	vtime.Start(clockBase.Add(secs(at)))
	pools.Initialize(c.NumLim)
	db, err := storage.Open()
	if err != nil {
		return nil, err
	}
	n := 0
	if c.Trim > 0 {
		n++
	}
	if c.Backup > 0 {
		n++
	}
	if n > 0 && !vtime.WaitSleepers(n) {
		// the periodic passes are not waiting on the clock; the expiry and backup
		// observations will show whether they happen
		_ = fmt.Sprint()
	}
	return db, nil
}
