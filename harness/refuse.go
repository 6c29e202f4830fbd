//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Starts under settings or backups that can't be used: what the process does
// then, and that the next proper start finds everything as it was.

// keeps returns a digest of what a tracker keeps across starts.
func (p *Proc) keeps() string {
	s := ""
	for _, f := range []string{p.bak(), p.conn(), filepath.Join(p.home, ".config/trakx/trakx.yaml"), filepath.Join(p.home, "trakx.yaml")} {
		b, err := os.ReadFile(f)
		st, err2 := os.Stat(f)
		s += fmt.Sprintf("%v %x %v\n", err2 == nil && st.IsDir(), sha256.Sum256(b), err != nil)
	}
	return s
}

var bindLine = regexp.MustCompile(`bind\(.*sin6?_port=htons\((\d+)\)`)

// addressAt says where in a backup the addresses are (their lengths, that is);
// nothing if it is laid out in some other way.
func addressAt(b []byte) (at []int) {
	for o := 0; o < len(b); {
		if o+24 > len(b) {
			return nil
		}
		n := binary.LittleEndian.Uint32(b[o+20:])
		for o += 24; n > 0; n-- {
			if o+25 > len(b) {
				return nil
			}
			l := int(int32(binary.LittleEndian.Uint32(b[o+21:])))
			if l != 4 && l != 16 {
				return nil
			}
			at = append(at, o+21)
			o += 25 + l + 10
		}
		if o > len(b) {
			return nil
		}
	}
	return
}

// hopeless starts the process, which should end by itself without ever having
// had a socket. It tells whether it serves nevertheless.
func (p *Proc) hopeless(e M) bool {
	was := p.keeps()
	p.uport, p.hport = freePort(), freePort()
	p.strace = []string{"-e", "trace=execve,bind"}
	p.launch()
	ended, socks := false, map[string]bool{}
	up := p.wait(20 * time.Second)
	if !up {
		select {
		case <-p.dead:
			ended = true
		case <-time.After(5 * time.Second):
		}
	}
	b, _ := os.ReadFile(p.stlog)
	for _, m := range bindLine.FindAllSubmatch(b, -1) {
		if string(m[1]) != "0" {
			socks[string(m[1])] = true
		}
	}
	if !bytes.Contains(b, []byte("execve(")) {
		fatalf("strace does not work: %s", p.logged())
	}
	e["ended"], e["up"], e["socks"], e["same"] = ended, up, len(socks), p.keeps() == was
	e["code"] = -1
	if ended {
		e["code"] = p.cmd.ProcessState.ExitCode()
	}
	e["log"] = tailOf(p.logged(), false)
	p.t.add(e)
	if !up {
		p.slay()
		p.strace = nil
	}
	return up
}

func (p *Proc) badSetting() (env map[string]string, yaml string) {
	g := p.g
	ints := []string{"many", "80x", "0x", "1.5", "1e3", "--1", " ", "99999999999999999999", "1 2"}
	uints := append([]string{"-1", "+-3"}, ints...)
	durs := []string{"5", "5 minutes", "1x", "h", "-", "1h 2", "ten", "1,5s"}
	bools := []string{"maybe", "yess", "2", "on!", "-1", "tru"}
	type set struct {
		key string
		of  []string
	}
	all := []set{{"http.port", ints}, {"http.threads", ints}, {"udp.port", ints}, {"udp.threads", ints}, {"debug.pprof", ints}, {"numwant.default", uints}, {"numwant.limit", uints},
		{"udp.conndb.size", uints}, {"udp.enabled", bools}, {"udp.conndb.validate", bools},
		{"announce.base", durs}, {"announce.fuzz", durs}, {"http.timeout.read", durs}, {"http.timeout.write", durs}, {"udp.conndb.trim", durs}, {"udp.conndb.expiry", durs},
		{"db.trim", durs}, {"db.expiry", durs}, {"db.backup.frequency", durs}, {"expvarinterval", durs},
		{"db.type", []string{"redis", "maps", "postgres", "none", " "}}, {"db.backup.type", []string{"ftp", "files", "postgres", "map", "null"}}}
	switch g.Intn(8) {
	case 0: // the platform's port
		return map[string]string{"PORT": g.one([]string{"http", "80 ", "8o8o", "-", "0x50", "80.0", "99999999999999999999"})}, ""
	case 1: // not YAML at all
		return nil, g.one([]string{"db: [1\n", "\tdb: 1\n", "db:\n  type: 'map\n", "a: b: c\n", "{db: {type: map}\n", "db: *none\n", "numwant:\n default: 3\n  limit: 5\n"})
	case 2: // YAML, with the wrong kind of value
		s := all[g.Intn(20)]
		v := g.one(s.of)
		l := strings.Split(s.key, ".")
		y := ""
		for i, k := range l {
			y += strings.Repeat("  ", i) + k + ":"
			if i < len(l)-1 {
				y += "\n"
			}
		}
		// what these may be in YAML is its business
		if strings.ContainsAny(v, " 5") || v == "-" || v == "1.5" || v == "1e3" || v == "2" {
			v = "[a, b]"
		}
		return map[string]string{"-": s.key}, y + " \"" + v + "\"\n"
	}
	s := all[g.Intn(len(all))]
	if g.p(0.25) {
		s = all[20+g.Intn(2)]
	}
	return map[string]string{"TRAKX_" + strings.ToUpper(strings.ReplaceAll(s.key, ".", "_")): g.one(s.of)}, ""
}

func (p *Proc) refusals(segs, tries int) {
	g := p.g
	for i := 0; i < segs; i++ {
		p.pick()
		p.modes()
		p.file = true
		c := defaultCfg
		c.Trim, c.Heroku = 0, p.heroku
		p.thr = []int{1, 4}[g.Intn(2)]
		p.reset(c)
		p.freq = 0
		if !p.start() {
			continue
		}
		for n := 4 + g.Intn(12); n > 0; n-- {
			p.op()
		}
		if !p.end([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.Intn(2)]) {
			continue
		}
		whole, err := os.ReadFile(p.bak())
		must(err)
		ok := true
		tries, kinds, from := tries, 5, 0
		if g.p(0.3) { // damaged backups only, cut at one length after the other
			tries, kinds = 5*tries, -1
			from = 1 + g.Intn(max(1, len(whole)-tries))
		}
		for k := 0; k < tries && ok; k++ {
			kind := kinds
			if kinds > 0 {
				kind = g.Intn(kinds)
			}
			switch kind {
			case 0, 1: // settings
				env, yaml := p.badSetting()
				if env["-"] != "" { // said in the file only
					env = map[string]string{"-TRAKX_" + strings.ToUpper(strings.ReplaceAll(env["-"], ".", "_")): ""}
				}
				if env == nil {
					env = map[string]string{}
				}
				if env["TRAKX_DEBUG_PPROF"] == "" && g.p(0.5) {
					env["TRAKX_DEBUG_PPROF"] = strconv.Itoa(freePort())
				}
				y := filepath.Join(p.home, "trakx.yaml")
				if yaml != "" {
					must(os.WriteFile(y, []byte(yaml), 0o644))
				}
				p.env = env
				ok = !p.hopeless(M{"e": "refused", "why": fmt.Sprint(env, yaml)})
				p.env = nil
				os.Remove(y)
			case 2: // something that isn't a file
				must(os.Rename(p.bak(), p.home+"/kept.db"))
				must(os.MkdirAll(p.bak(), 0o755))
				ok = !p.hopeless(M{"e": "refused", "why": "directory"})
				must(os.Remove(p.bak()))
				must(os.Rename(p.home+"/kept.db", p.bak()))
			default: // part of a backup, or more than one
				what, b := "cut", append([]byte{}, whole...)
				if at := addressAt(whole); from == 0 && len(at) > 0 && g.p(0.25) {
					what = "address"
					o := at[g.Intn(len(at))]
					n := int(binary.LittleEndian.Uint32(b[o:]))
					var l int32
					for l = int32(n); l == 4 || l == 16; {
						l = []int32{-1, 0, 1, 3, 5, 6, 8, 12, 15, 17, 20}[g.Intn(11)]
					}
					a := make([]byte, max(0, l))
					g.Read(a)
					rest := append([]byte{}, b[o+4+n:]...)
					b = append(append(binary.LittleEndian.AppendUint32(b[:o], uint32(l)), a...), rest...)
				} else if len(whole) < 2 || from == 0 && g.p(0.25) {
					what = "tail"
					t := make([]byte, 1+g.Intn(19))
					g.Read(t)
					b = append(b, t...)
				} else {
					n := 1 + g.Intn(len(b)-1)
					if g.p(0.3) { // hardly anything missing
						n = max(1, len(b)-1-g.Intn(9))
					}
					if from > 0 {
						n = min(from+k, len(b)-1)
					}
					b = b[:n]
				}
				must(os.WriteFile(p.bak(), b, 0o644))
				up := p.hopeless(M{"e": "damaged", "what": what, "len": len(b), "of": len(whole), "http": p.http, "udp": p.udpOn})
				if up {
					p.up = true
					p.forgetIDs()
					p.probe()
					p.kill()
					p.strace = nil
				}
				must(os.WriteFile(p.bak(), whole, 0o644))
			}
		}
		if !ok {
			p.slay()
			p.strace = nil
			continue
		}
		// and a proper start finds everything as it was
		if p.start() {
			p.oldIDs()
			p.forgetIDs()
			p.probe()
			for n := g.Intn(3); n > 0; n-- {
				p.op()
			}
			p.end(syscall.SIGTERM)
		}
	}
}
