//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"expvar"
	"fmt"
	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zz_verif/vsync"
	"github.com/crimist/trakx/zz_verif/vtime"
	"math"
	"math/bits"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/crimist/trakx/tracker/storage"
)

// ---- datagrams

func udpHead(id []byte, action uint32, tx uint32) []byte {
	b := make([]byte, 16)
	copy(b, id)
	binary.BigEndian.PutUint32(b[8:], action)
	binary.BigEndian.PutUint32(b[12:], tx)
	return b
}

type ann struct {
	h, p    [20]byte
	left    uint64
	event   uint32
	ip      uint32
	numwant int32
	port    uint16
	ext     []byte
}

func (a ann) udp(id []byte, tx uint32) []byte {
	b := udpHead(id, 1, tx)
	b = append(b, a.h[:]...)
	b = append(b, a.p[:]...)
	b = binary.BigEndian.AppendUint64(b, 11) // downloaded
	b = binary.BigEndian.AppendUint64(b, a.left)
	b = binary.BigEndian.AppendUint64(b, 13) // uploaded
	b = binary.BigEndian.AppendUint32(b, a.event)
	b = binary.BigEndian.AppendUint32(b, a.ip)
	b = binary.BigEndian.AppendUint32(b, 0xfeedface) // key
	b = binary.BigEndian.AppendUint32(b, uint32(a.numwant))
	b = binary.BigEndian.AppendUint16(b, a.port)
	return append(b, a.ext...)
}

func udpScrape(id []byte, tx uint32, hs ...[20]byte) []byte {
	b := udpHead(id, 2, tx)
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	return b
}

// ---- HTTP requests

type param struct{ k, v string }

type G struct {
	*rand.Rand
	s      *Srv
	hs, ps []string
	ips    []string
	seen   map[string]int // torrent/peer -> last announce, to choose unambiguous instants
	ctimes map[string]int // source -> last connect
	tx     uint32
	heroku bool
}

func (g *G) one(l []string) string { return l[g.Intn(len(l))] }
func (g *G) p(x float64) bool      { return g.Float64() < x }

// esc escapes what has to be escaped and whatever else it likes to.
func (g *G) esc(s string, mode int) string {
	var o strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		must := c == '&' || c == '%' || c == ' ' || c == '#' || c == '\r' || c == '\n'
		unres := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == '~'
		e := must
		switch mode {
		case 1: // as browsers do
			e = !unres
		case 2: // everything
			e = true
		case 3:
			e = must || g.p(0.5)
		case 4:
			e = must || c == '+'
		}
		if e {
			if g.Intn(2) == 0 {
				fmt.Fprintf(&o, "%%%02X", c)
			} else {
				fmt.Fprintf(&o, "%%%02x", c)
			}
		} else {
			o.WriteByte(c)
		}
	}
	return o.String()
}

func (g *G) query(ps []param) string {
	var l []string
	for _, p := range ps {
		k := p.k
		if g.p(0.05) {
			k = g.esc(k, 3)
		}
		if p.v == "\x00none" {
			l = append(l, k)
			continue
		}
		l = append(l, k+"="+g.esc(p.v, g.Intn(5)))
	}
	return strings.Join(l, "&")
}

func (g *G) headers() string {
	switch g.Intn(4) {
	case 0:
		return " HTTP/1.0\r\n\r\n"
	case 1:
		return " HTTP/1.1\r\nHost: tracker.example\r\nUser-Agent: x/1 ?&=%zz\r\nAccept: */*\r\n\r\n"
	case 2:
		return " HTTP/1.1\r\n\r\nGET /announce?info_hash=zzz HTTP/1.1\r\n\r\n"
	}
	return " HTTP/1.1\r\n\r\n"
}

func (g *G) forwarded() string {
	v := g.one([]string{"1.2.3.4", "9.9.9.9, 8.8.4.4", "8.8.4.4,7.7.7.7", "2001:db8::7", "::1, 2001:DB8::8", "::ffff:5.6.7.8", "1.2.3", "", "garbage", "1.2.3.4, ",
		"1.2.3.4 ", "10.0.0.1,\t10.0.0.2 ", "unknown, 10.1.1.1", "10.1.1.1, unknown", "256.1.1.1", "1.2.3.04", "[::1]", "1.2.3.4:80", "1::2::3", "::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "a, b, 4.4.4.4",
		"fe80::7%eth0", "fe80::7%", "1.2.3.4%eth0", "::ffff:5.6.7.8%a%b", "172.16.0.1", "::5.6.7.8", "fe80::1"})
	h := g.one([]string{"X-Forwarded-For: ", "X-Forwarded-For: ", "X-Forwarded-For: ", "X-Forwarded-Fox: ", "x-forwarded-for: ", "X-Forwarded-For:"})
	r := " HTTP/1.1\r\nHost: h\r\n" + h + v
	switch g.Intn(6) {
	case 0: // unterminated
		return r
	case 1:
		return r + "\r\nX-Forwarded-For: 6.6.6.6\r\n\r\n"
	}
	return r + "\r\n\r\n"
}

func (g *G) tail() string {
	if g.heroku && g.p(0.7) {
		return g.forwarded()
	}
	return g.headers()
}

var oddInts = []string{"", "0", "-1", "65536", "65616", "+80", "0080", "-0", "1e3", "0x10", " 80", "80 ", "8 0", "999999999999", "9223372036854775807",
	"9223372036854775808", "18446744073709551617", "4294967376", "99999999999999999999999", "+", "-", "1_0", "80\x00", "\xff", "-80", "٣"}

// announce parameters; odd > 0 makes some of them invalid
func (g *G) annParams(h, p [20]byte, port int, odd float64) []param {
	ps := []param{{"info_hash", string(h[:])}, {"peer_id", string(p[:])}, {"port", strconv.Itoa(port)}}
	if g.p(0.6) {
		ps = append(ps, param{"numwant", strconv.Itoa([]int{0, 1, 2, 3, 4, 5, 6, 50, 200, 201, 1000, 256, 65536, 65537, 65538, 1 << 32, 1<<32 + 2, 1<<31 + 1, math.MaxInt64}[g.Intn(19)])})
	}
	if g.p(0.6) {
		ps = append(ps, param{"event", g.one([]string{"started", "stopped", "completed", "completed", "", "stop", "Stopped", "paused"})})
	}
	if g.p(0.6) {
		ps = append(ps, param{"left", g.one([]string{"0", "0", "1", "100", "00", ""})})
	}
	if g.p(0.6) {
		ps = append(ps, param{"compact", g.one([]string{"1", "1", "1", "0", "\x00none"})})
	}
	if g.p(0.4) {
		ps = append(ps, param{"no_peer_id", g.one([]string{"1", "1", "0", "\x00none"})})
	}
	if g.p(0.3) {
		ps = append(ps, param{"uploaded", "5"}, param{"downloaded", "6"}, param{"key", "AB=CD"}, param{"ip", "66.66.66.66"})
	}
	if g.p(0.15) {
		ps = append(ps, param{"ip", "77.1.1.1"}, param{"ipv6", "2001:db8::66"})
	}
	if g.p(0.15) { // an address under other names a client may use for it
		ps = append(ps, param{g.one([]string{"ipv4", "ip4", "ip6", "clientip", "addr", "address", "host"}), g.one([]string{"78.1.1.1", "2001:db8::67", "10.9.8.7"})})
	}
	if odd > 0 && g.p(1.5*odd) { // one parameter odd, or absent, among good ones
		k := g.one([]string{"info_hash", "peer_id", "port", "port", "numwant", "numwant"})
		var l []param
		for _, q := range ps {
			if q.k != k && (q.k != "event" || !g.p(0.5)) {
				l = append(l, q)
			}
		}
		ps = l
		switch v := string(p[:]); k {
		case "peer_id":
			ps = append(ps, param{k, []string{"", v[:19], v + "x", v[1:]}[g.Intn(4)]})
		case "info_hash":
			v = string(h[:])
			ps = append(ps, param{k, []string{"", v[:19], v + "x", v[1:]}[g.Intn(4)]})
		default:
			if v := g.one(oddInts); g.p(0.5) {
				ps = append(ps, param{k, g.one([]string{"-1", "-2", "0", "-65535", "65536", "65537", "-9223372036854775808", "x"})})
			} else if g.p(0.9) {
				ps = append(ps, param{k, v})
			}
		}
		if g.p(0.3) {
			ps = append(ps, param{"event", g.one([]string{"stopped", "stopped", "completed"})})
		}
	} else if odd > 0 {
		for i := range ps {
			if !g.p(odd) {
				continue
			}
			switch ps[i].k {
			case "info_hash", "peer_id":
				v := ps[i].v
				ps[i].v = []string{"", v[:19], v + "x", v + v, "a", v[1:]}[g.Intn(6)]
			case "port", "numwant":
				ps[i].v = oddInts[g.Intn(len(oddInts))]
			}
		}
		if g.p(odd) { // a parameter twice
			ps = append(ps, ps[g.Intn(len(ps))])
			if g.p(0.5) {
				ps = append(ps, param{g.one([]string{"port", "numwant", "event", "info_hash", "left", "compact"}), g.one([]string{"1", "0", "stopped", "x"})})
			}
		}
		if g.p(odd) { // one missing
			i := g.Intn(len(ps))
			ps = append(ps[:i:i], ps[i+1:]...)
		}
	}
	if g.p(0.5) {
		g.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}
	return ps
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func (g *G) maybeB64(r string) string {
	if len(r) < 1800 && g.p(0.1) {
		return b64(r)
	}
	return r
}

// mangle makes a request that may be malformed.
func (g *G) mangle(r string) string {
	b := []byte(r)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := g.Intn(len(b))
		switch g.Intn(7) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b[i] = "&=%? /\x00\xffG"[g.Intn(9)]
		case 3:
			b = append(b[:i:i], append([]byte{"&=%?+ H"[g.Intn(7)]}, b[i:]...)...)
		case 4:
			j := i + g.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...) // repeat a piece
		case 5:
			b = b[i:]
		case 6:
			b = append(b[:i:i], append([]byte(g.one([]string{"%", "%4", "%zz", "%41", "&&", "?", " HTTP/", "\r\n", "%%41"})), b[i:]...)...)
		}
	}
	if len(b) == 0 {
		return "x"
	}
	return string(b)
}

// clientHeaders is the rest of a request line with what clients send after it, if anything.
func (g *G) clientHeaders() string {
	r := " HTTP/1.1\r\n"
	if g.p(0.5) {
		return r + "\r\n"
	}
	for _, h := range []string{"Host: tracker.example:8080", "User-Agent: Transmission/4.0.5", "Connection: keep-alive", "Connection: close", "Accept: */*",
		"Accept-Encoding: gzip;q=1.0, deflate, identity", "Content-Length: 0", "Cookie: " + strings.Repeat("c", g.Intn(1500)), "Range: bytes=0-9", "If-None-Match: *", "Expect: 100-continue"} {
		if g.p(0.3) {
			r += h + "\r\n"
		}
	}
	return r + "\r\n"
}

func (g *G) oddRequest() string {
	h, p := g.s.w.hs[g.one(g.hs)], g.s.w.ps[g.one(g.ps)]
	good := "/announce?" + g.query(g.annParams(h, p, 1+g.Intn(65535), 0))
	switch g.Intn(12) {
	case 0:
		return g.one([]string{"POST ", "HEAD ", "get ", "GETT ", "GE ", "", " GET ", "GET  ", "X GET ", "GET\t"}) + good + g.clientHeaders()
	case 1:
		return "GET " + g.one([]string{"/", "/index.html", "/dmca.html", "/trakx.yaml", "/../config/embedded/trakx.yaml", "/embedded/trakx.yaml", "//index.html", "/index.html/", "/dmca", "/announce/",
			"/Announce", "/scrape/", "/%61nnounce", "/heartbeat", "/stats", "/heartbeat", "/stats", "/stats", "/stats?x=1", "/scrape", "/announce", "/heartbeat?x=1", "/heartbeat?", "/index.html?a=b", "/?a=%41", "/nope", "/trakx.yaml?x=1", "/dmca.html?%4"}) + g.clientHeaders()
	case 2: // many parameters; those beyond 45 are ignored
		n := []int{41, 42, 43, 44, 45, 46, 60}[g.Intn(7)]
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, "a"+strconv.Itoa(i)+"=b")
		}
		return "GET /announce?" + strings.Join(l, "&") + "&" + g.query(g.annParams(h, p, 6881, 0)) + " HTTP/1.1\r\n\r\n"
	case 3:
		return "GET /announce" + g.one([]string{"", "?", "?&", "?&&", "?=", "?=&=", "?%", "?%4", "?a", "?a=%"}) + g.clientHeaders()
	case 4:
		return "GET " + good + g.one([]string{"&", "&&", "&x", "&%", "&=", "?", "#"}) + " HTTP/1.1\r\n\r\n"
	case 5: // around the size limit of a request
		r := "GET " + good + " HTTP/1.1\r\nX: "
		n := []int{2598, 2599, 2600, 2601, 2700, 5200, 6000}[g.Intn(7)]
		return r + strings.Repeat("y", max(0, n-len(r)-4)) + "\r\n\r\n"
	case 6: // the limit inside the query
		q := g.query(g.annParams(h, p, 6881, 0))
		pad := strings.Repeat("z", max(0, 2500+g.Intn(120)-len(q)))
		return "GET /announce?junk=" + pad + "&" + q + " HTTP/1.1\r\n\r\n"
	case 7:
		e := b64("GET " + good + " HTTP/1.1\r\n\r\n")
		switch g.Intn(6) {
		case 0:
			return e[:len(e)-1-g.Intn(4)]
		case 1:
			return e + "\r\n"
		case 2:
			i := 4 + g.Intn(len(e)-4)
			return e[:i] + "\n" + e[i:]
		case 3:
			i := 4 + g.Intn(len(e)-4)
			return e[:i] + "*" + e[i+1:]
		case 4:
			return "R0VU" + strings.Repeat("A", 4*g.Intn(50))
		}
		return e
	case 8:
		return g.one([]string{"\x00", "G", "GET", "GET ", "GET /", "GET / ", "GET / HTTP", "GET / HTTP/", "GET /?", "GET /? HTTP/1.1\r\n\r\n", "\r\n\r\n", " HTTP/1.1", "R0VU", "GET /announce", "R0VUIC8gSFRUUC8=", "? /announce HTTP/1.1\r\n\r\n", "GET HTTP/1.1\r\n\r\n", "GET  HTTP/1.1 /", " / HTTP/ GET /", "PUT / HTTP/1.1\r\n\r\nGET / HTTP/1.1"})
	case 9:
		b := make([]byte, 1+g.Intn(300))
		g.Read(b)
		return string(b)
	default:
		return g.mangle("GET " + good + g.tail())
	}
}

func (g *G) scrapeReq(odd float64) string {
	var ps []param
	n := 1 + g.Intn(4)
	switch g.Intn(12) {
	case 0:
		n = []int{40, 44, 45, 46}[g.Intn(4)]
	case 1:
		n = 0
	}
	for i := 0; i < n; i++ {
		h := g.s.w.hs[g.s.w.hn[g.Intn(len(g.s.w.hn))]]
		if g.p(0.2) {
			g.Read(h[:])
		}
		v := string(h[:])
		if g.p(odd) {
			v = []string{"", v[:19], v + "x"}[g.Intn(3)]
		}
		ps = append(ps, param{"info_hash", v})
	}
	if g.p(0.3) {
		i := g.Intn(len(ps) + 1)
		ps = append(ps[:i:i], append([]param{{g.one([]string{"compact", "infohash", "info_hashes", "x"}), g.one([]string{"1", "\x00none", "aaaaaaaaaaaaaaaaaaaa"})}}, ps[i:]...)...)
	}
	q := g.query(ps)
	if len(q) > 2400 {
		var l []string
		for _, p := range ps {
			l = append(l, p.k+"="+g.esc(p.v, 0))
		}
		q = strings.Join(l, "&")
	}
	if q == "" {
		return "GET /scrape HTTP/1.1\r\n\r\n"
	}
	return "GET /scrape?" + q + " HTTP/1.1\r\n\r\n"
}

// ---- connection ids

func (g *G) connect(x *Src) {
	g.tx++
	// the protocol's magic number; nothing hangs on it
	g.s.send(x, udpHead([]byte{0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80}, 0, g.tx*2654435761))
	g.mark(g.ctimes, x.name)
}

// connid is an id for x to use; mostly its own.
func (g *G) connid(x *Src, wrong float64) []byte {
	id := append([]byte{}, x.cur...)
	if len(id) == 0 {
		id = make([]byte, 8)
		g.Read(id)
	}
	if !g.p(wrong) {
		return id
	}
	n := binary.BigEndian.Uint64(id)
	switch g.Intn(10) {
	case 8: // what a slip in the arithmetic would make of it
		v := []uint64{-n, ^n, n &^ (1 << 63), n | 1<<63, n & 0xffffffff, n &^ 0xffffffff, n << 1, n >> 1, uint64(int64(int32(n))), bits.ReverseBytes64(n)}
		binary.BigEndian.PutUint64(id, v[g.Intn(len(v))])
		return id
	case 9: // any part of it different
		id[g.Intn(8)] += byte(1 + g.Intn(255))
	case 6: // the number that only a connect may carry, and others of note
		return [][]byte{{0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80}, {0x80, 0x19, 0x10, 0x27, 0x17, 4, 0, 0}, bytes.Repeat([]byte{0xff}, 8), {0, 0, 0, 0, 0, 0, 0, 1}}[g.Intn(4)]
	case 7: // the next number, the same backwards
		if g.p(0.5) {
			binary.BigEndian.PutUint64(id, binary.BigEndian.Uint64(id)+1-2*uint64(g.Intn(2)))
			return id
		}
		slices.Reverse(id)
		return id
	case 0:
		if y := g.s.srcs[g.one(g.s.order)]; y.cur != nil {
			return append([]byte{}, y.cur...)
		}
	case 1:
		if x.prev != nil {
			return append([]byte{}, x.prev...)
		}
	case 2:
		id[g.Intn(8)] ^= 1 << g.Intn(8)
	case 3:
		return make([]byte, 8)
	case 4: // halves swapped
		return append(append([]byte{}, id[4:]...), id[:4]...)
	case 5:
		g.Read(id)
	}
	return id
}

var oddActions = []uint32{0, 1, 2, 3, 3, 4, 5, 6, 127, 128, 255, 256, 257, 258, 260, 512, 0x01000001, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe}

func (g *G) oddDatagram(x *Src) []byte {
	h, p := g.s.w.hs[g.one(g.hs)], g.s.w.ps[g.one(g.ps)]
	a := ann{h: h, p: p, left: 5, port: 6881, numwant: -1}
	id := g.connid(x, 0.25)
	g.tx++
	tx := []uint32{0, g.tx, 0xffffffff, 0x80000000, 0x00000104}[g.Intn(5)]
	switch g.Intn(9) {
	case 0: // any length of a valid announce
		return a.udp(id, tx)[:g.Intn(99)]
	case 1:
		return a.udp(id, tx)[:[]int{15, 16, 17, 36, 56, 96, 97}[g.Intn(7)]]
	case 2:
		a.port = 0
		a.event = []uint32{0, 1, 2, 3, 3, 3}[g.Intn(6)]
		a.left = []uint64{0, 5}[g.Intn(2)]
		return a.udp(id, tx)
	case 3, 4:
		d := a.udp(id, tx)
		binary.BigEndian.PutUint32(d[8:], oddActions[g.Intn(len(oddActions))])
		return d[:[]int{16, 98, 98, 36}[g.Intn(4)]]
	case 5:
		b := make([]byte, g.Intn(140))
		g.Read(b)
		return b
	case 6: // extensions behind the announce
		a.ext = make([]byte, []int{1, 2, 40, 1397, 1398, 1399, 2000}[g.Intn(7)])
		g.Read(a.ext)
		return a.udp(id, tx)
	case 7: // scrapes around the size limit, with and without a remainder
		var hs [][20]byte
		for n := []int{0, 1, 2, 60, 70, 71, 73, 74, 75, 76, 100}[g.Intn(11)]; n > 0; n-- {
			hs = append(hs, g.s.w.hs[g.s.w.hn[g.Intn(len(g.s.w.hn))]])
		}
		d := udpScrape(id, tx, hs...)
		return append(d, make([]byte, g.Intn(21))...)
	}
	d := a.udp(id, tx)
	d[g.Intn(len(d))] ^= 1 << g.Intn(8)
	return d
}

// ---- random segments

// mark notes an instant at which something may have been touched; every one
// counts, as the touch may have been refused.
func (g *G) mark(m map[string]int, k string) { m[fmt.Sprintf("%s@%d", k, g.s.now)] = g.s.now }

func (g *G) settled(d int) bool {
	c := g.s.cfg
	n := g.s.now + d
	if c.Trim > 0 {
		for _, t := range g.seen {
			if a := n - t; a > c.Expiry && a <= c.Expiry+c.Trim {
				return false
			}
		}
	}
	for _, t := range g.ctimes {
		if a := n - t; a > c.ConnExpiry && a <= c.ConnExpiry+c.ConnTrim {
			return false
		}
	}
	return true
}

// downtime: the tracker is away for a while and finds what it saved older.
func (g *G) downtime() {
	s, c := g.s, g.s.cfg
	ds := []int{1, c.ConnTrim, c.ConnExpiry / 2, c.ConnExpiry, c.ConnExpiry + 1, c.ConnExpiry + c.ConnTrim + 1, 3 * c.ConnExpiry}
	s.restartAfter(ds[g.Intn(len(ds))])
	use := func() {
		for _, n := range s.order {
			y := s.srcs[n]
			g.tx++
			s.send(y, udpScrape(g.connid(y, 0.1), g.tx*2654435761, s.w.hs[g.one(g.hs)]))
		}
		s.obs()
	}
	use() // nothing has been expired since
	for _, d := range []int{c.ConnTrim, c.ConnTrim + 1, c.ConnExpiry, c.ConnExpiry - 1, c.ConnExpiry / 2} {
		if d >= c.ConnTrim && g.settled(d) && g.p(0.8) {
			s.adv(d)
			use()
			return
		}
	}
	// some pass has to run before anything else does
	d := c.ConnTrim
	for !g.settled(d) {
		d++
	}
	s.adv(d)
	use()
}

func (g *G) srcAny() *Src { return g.s.src(g.one(g.ips), g.Intn(2)) }

func (g *G) udpAnnounce(x *Src, h, p string, wrong float64) {
	a := ann{h: g.s.w.hs[h], p: g.s.w.ps[p], port: uint16([]int{1, 255, 256, 6881, 65535, 1 + g.Intn(65535)}[g.Intn(6)])}
	a.left = []uint64{0, 0, 1, 100, 1 << 32, 1 << 63, math.MaxUint64}[g.Intn(7)]
	a.event = []uint32{0, 0, 1, 2, 3, 3, 4, 255, 0x103, 0x03000000}[g.Intn(10)]
	a.numwant = []int32{-1, 0, 1, 2, 3, 4, 5, 6, 75, 200, 201, 256, 257, 65536, 65538, 1<<24 + 1, -2, -65535, math.MaxInt32, math.MinInt32}[g.Intn(20)]
	if g.p(0.3) {
		a.ip = 0x42424242
	}
	if g.p(0.2) {
		a.ext = []byte{2, 3, 'a', 'b', 'c'}
	}
	g.tx++
	g.mark(g.seen, h+p)
	g.s.send(x, a.udp(g.connid(x, wrong), g.tx*2654435761))
}

func (g *G) look() {
	for _, h := range g.hs {
		g.s.dump(g.s.w.hs[h])
	}
	g.s.obs()
	g.s.counters()
}

type srvProfile struct {
	segs, ops                       int
	udp, scrape, http, hscrape, odd int // weights
	uodd, time, misc, save          int
	wrong, oddp                     float64
	sched                           float64
}

var srvProfiles = map[string]srvProfile{
	"default": {ops: 60, udp: 24, scrape: 8, http: 24, hscrape: 8, odd: 4, uodd: 4, time: 4, misc: 6, wrong: 0.1, oddp: 0.05, sched: 0.3},
	"udp":     {ops: 70, udp: 40, scrape: 20, uodd: 8, http: 4, time: 4, misc: 6, wrong: 0.12, sched: 0.2},
	"uodd":    {ops: 80, udp: 15, scrape: 5, uodd: 60, misc: 6, wrong: 0.1},
	"conn":    {ops: 70, udp: 40, scrape: 10, time: 16, misc: 8, save: 4, wrong: 0.35, sched: 0},
	"http":    {ops: 70, http: 40, hscrape: 12, odd: 8, udp: 6, misc: 6, oddp: 0.08, sched: 0.1},
	"hodd":    {ops: 80, http: 25, hscrape: 10, odd: 45, misc: 6, oddp: 0.3},
	"restart": {ops: 60, udp: 24, scrape: 8, http: 16, hscrape: 4, time: 4, misc: 6, save: 8, wrong: 0.1},
}

func genSrv(g *G, pf srvProfile) {
	s := g.s
	for seg := 0; seg < pf.segs; seg++ {
		c := defaultCfg
		c.Heroku = g.heroku
		c.NumDef, c.NumLim = 3, 5
		if g.p(0.4) {
			n := [][2]int{{75, 200}, {75, 200}, {5, 3}, {4, 4}, {0, 5}, {2, 0}}[g.Intn(6)]
			c.NumDef, c.NumLim = n[0], n[1]
		}
		switch g.Intn(4) {
		case 0:
			c.Base, c.Fuzz = 1800, 0
		case 1:
			c.Base, c.Fuzz = 60, 1
		}
		c.Validate = g.p(0.85)
		c.Trim = 0
		c.ConnExpiry, c.ConnTrim = []int{20, 100, 1800}[g.Intn(3)], []int{1, 5, 10}[g.Intn(3)]
		if g.p(pf.sched) {
			c.Expiry = []int{10, 25}[g.Intn(2)]
			c.Trim = []int{1, 5}[g.Intn(2)]
		} else {
			c.Expiry = []int{10, 2400}[g.Intn(2)]
		}
		s.backup = pf.save > 0
		s.threads = 1
		s.reset(c)
		g.seen, g.ctimes = map[string]int{}, map[string]int{}
		g.hs = s.w.hn[:1+g.Intn(len(s.w.hn))]
		g.ps = s.w.pn[:1+g.Intn(len(s.w.pn))]
		g.ips = nil
		for i := 0; i < 1+g.Intn(3); i++ {
			g.ips = append(g.ips, s.w.in4[g.Intn(5)])
		}
		if s.v6 && g.p(0.6) {
			g.ips = append(g.ips, s.w.in6[0])
			if g.p(0.2) {
				g.ips = g.ips[len(g.ips)-1:]
			}
		}
		if g.p(0.6) { // wherever else clients are
			for i := 0; i < 1+g.Intn(3); i++ {
				g.ips = append(g.ips, g.one(s.real))
			}
		}
		tot := pf.udp + pf.scrape + pf.http + pf.hscrape + pf.odd + pf.uodd + pf.time + pf.misc + pf.save
		for i := 0; i < pf.ops; i++ {
			x := g.Intn(tot)
			in := func(w int) bool {
				if x < w {
					x = 1 << 30
					return true
				}
				x -= w
				return false
			}
			switch {
			case in(pf.udp):
				y := g.srcAny()
				if (y.cur == nil && !g.p(0.1)) || g.p(0.12) {
					g.connect(y)
				}
				g.udpAnnounce(y, g.one(g.hs), g.one(g.ps), pf.wrong)
			case in(pf.scrape):
				y := g.srcAny()
				if y.cur == nil && !g.p(0.1) {
					g.connect(y)
				}
				var hs [][20]byte
				for n := []int{1, 1, 2, 3, 5, 0}[g.Intn(6)]; n > 0; n-- {
					h := s.w.hs[s.w.hn[g.Intn(len(s.w.hn))]]
					if g.p(0.15) {
						g.Read(h[:])
					}
					hs = append(hs, h)
				}
				g.tx++
				s.send(y, udpScrape(g.connid(y, pf.wrong), g.tx*2654435761, hs...))
			case in(pf.http):
				h, p := g.one(g.hs), g.one(g.ps)
				g.mark(g.seen, h+p)
				ps := g.annParams(s.w.hs[h], s.w.ps[p], 1+g.Intn(65535), pf.oddp)
				s.request(g.one(g.ips), []byte(g.maybeB64("GET /announce?"+g.query(ps)+g.tail())))
			case in(pf.hscrape):
				s.request(g.one(g.ips), []byte(g.maybeB64(g.scrapeReq(pf.oddp))))
			case in(pf.odd):
				for _, h := range g.hs { // whatever it does, it may be an announce of any of them
					for _, p := range g.ps {
						if c.Trim > 0 {
							g.mark(g.seen, h+p)
						}
					}
				}
				s.request(g.one(g.ips), []byte(g.oddRequest()))
			case in(pf.uodd):
				y := g.srcAny()
				if y.cur == nil && !g.p(0.2) {
					g.connect(y)
				}
				g.mark(g.ctimes, y.name) // a mutilated datagram may be a connect
				for _, h := range g.hs {
					for _, p := range g.ps {
						if c.Trim > 0 {
							g.mark(g.seen, h+p)
						}
					}
				}
				if g.p(0.05) {
					s.send(y, heartbeat)
				} else {
					s.send(y, g.oddDatagram(y))
				}
			case in(pf.time):
				var ds []int
				for _, d := range []int{1, 2, c.ConnExpiry, c.ConnExpiry - 1, c.ConnExpiry + c.ConnTrim + 1, c.Expiry, c.Expiry + 1, c.Expiry + c.Trim + 1, g.Intn(c.ConnExpiry * 2)} {
					if d > 0 && g.settled(d) {
						ds = append(ds, d)
					}
				}
				if len(ds) > 0 {
					s.adv(ds[g.Intn(len(ds))])
					for k, t := range g.ctimes {
						if s.now-t > c.ConnExpiry {
							delete(g.ctimes, k)
						}
					}
					if c.Trim > 0 {
						for k, t := range g.seen {
							if s.now-t > c.Expiry {
								delete(g.seen, k)
							}
						}
					} else if g.p(0.6) {
						s.trim()
					}
					g.look()
				}
			case in(pf.save):
				s.save()
				if g.p(0.5) {
					y := g.srcAny()
					g.connect(y)
					g.udpAnnounce(y, g.one(g.hs), g.one(g.ps), 0)
				}
				if g.p(0.6) {
					if c.Trim > 0 {
						break
					}
					if g.p(0.3) {
						s.corrupt(g.Intn(7))
						s.restart()
						for _, y := range s.srcs {
							y.cur, y.prev = nil, nil
						}
						g.ctimes = map[string]int{}
						for _, n := range s.order {
							g.connect(s.srcs[n])
						}
					} else if g.p(0.5) {
						g.downtime()
					} else {
						s.restart()
					}
					g.look()
				}
			default:
				g.look()
			}
			if g.p(0.25) {
				s.dump(s.w.hs[g.one(g.hs)])
			}
		}
		g.look()
		s.drain()
	}
	s.stop()
	s.forget()
}

// ---- scripts from the models

// reach replaces an IPv6 address where there is no IPv6.
func (g *G) reach(ip string) string {
	if strings.HasPrefix(ip, "j") && !g.s.v6 {
		return "i6"
	}
	return ip
}

// execute maps an operation of a model to requests.
func (g *G) execute(o map[string]any, i int) {
	s := g.s
	str := func(k string) string { v, _ := o[k].(string); return v }
	num := func(k string) int { v, _ := o[k].(float64); return int(v) }
	switch str("e") {
	case "reset":
		b, _ := json.Marshal(o["cfg"])
		var c Cfg
		must(json.Unmarshal(b, &c))
		c.Heroku = g.heroku
		s.backup, s.threads = true, 1
		s.reset(c)
		g.seen, g.ctimes = map[string]int{}, map[string]int{}
		g.hs, g.ps = s.w.hn[:2], s.w.pn[:3]
	case "save", "drop":
		a := ann{h: s.w.hs[str("h")], p: s.w.ps[str("p")], port: uint16(num("port")), left: 7, numwant: []int32{-1, 1, 2, 50}[i%4]}
		ip := str("ip")
		drop := str("e") == "drop"
		c, _ := o["c"].(bool)
		if drop {
			a.event, a.port, ip = 3, 9, "i1"
		} else if c && i%3 == 0 {
			a.event = 1
		} else if c {
			a.left = 0
		} else {
			a.event = []uint32{0, 2}[i%2]
		}
		ip = g.reach(ip)
		if i%2 == 0 {
			x := s.src(ip, 0)
			if x.cur == nil {
				g.connect(x)
			}
			g.tx++
			s.send(x, a.udp(x.cur, g.tx))
			break
		}
		ps := []param{{"info_hash", string(a.h[:])}, {"peer_id", string(a.p[:])}, {"left", fmt.Sprint(a.left)}}
		if !drop {
			ps = append(ps, param{"port", fmt.Sprint(a.port)})
		}
		if a.numwant > 0 {
			ps = append(ps, param{"numwant", fmt.Sprint(a.numwant)})
		}
		if e := map[uint32]string{1: "completed", 2: "started", 3: "stopped"}[a.event]; e != "" {
			ps = append(ps, param{"event", e})
		}
		if i%4 == 1 {
			ps = append(ps, param{"compact", "1"})
		} else if i%8 == 3 {
			ps = append(ps, param{"no_peer_id", "1"})
		}
		s.request(ip, []byte("GET /announce?"+g.query(ps)+" HTTP/1.1\r\n\r\n"))
	case "adv":
		s.adv(num("d"))
	case "trim":
		s.trim()
	case "backup":
		s.save()
	case "restart":
		s.restart()
		for _, y := range s.srcs {
			y.cur = nil
		}
	// the connection model
	case "connect":
		g.connect(s.src(g.reach(str("src")), num("k")))
	case "use":
		x := s.src(g.reach(str("src")), num("k"))
		var id []byte
		switch y := s.src(g.reach(str("of")), num("ofk")); str("id") {
		case "cur":
			id = y.cur
		case "prev":
			id = y.prev
		}
		if id == nil {
			id = []byte{1, 2, 3, 4, 5, 6, 7, byte(i)}
		}
		g.tx++
		if i%2 == 0 {
			s.send(x, udpScrape(id, g.tx, s.w.hs["h1"]))
		} else {
			s.send(x, ann{h: s.w.hs["h1"], p: s.w.ps["p1"], port: uint16(1 + i%60000), left: uint64(i % 2), numwant: -1}.udp(id, g.tx))
			s.dump(s.w.hs["h1"])
		}
	case "saveconns":
		s.save()
	case "reboot":
		s.restart()
	default:
		fatalf("unknown op %v", o)
	}
}

func (g *G) scriptProbe(o map[string]any, i int) {
	s := g.s
	switch o["e"] {
	case "save", "drop", "trim", "restart":
	case "connect", "reboot", "adv":
		if i%4 == 0 {
			s.obs()
		}
		return
	default:
		return
	}
	for k, h := range g.hs {
		s.dump(s.w.hs[h])
		_ = k
	}
	h1, h2 := s.w.hs["h1"], s.w.hs["h2"]
	if i%2 == 1 {
		x := s.src("i1", 0)
		if x.cur == nil {
			g.connect(x)
		}
		g.tx++
		s.send(x, udpScrape(x.cur, g.tx, h1, h2, h1))
	} else {
		s.request("i1", []byte("GET /scrape?info_hash="+g.esc(string(h1[:]), 1)+"&info_hash="+g.esc(string(h2[:]), 1)+" HTTP/1.1\r\n\r\n"))
	}
	if i%8 == 0 {
		s.obs()
		s.counters()
	}
}

// ---- special runs

// spread samples the interval of identical announces.
func (g *G) spread() {
	s := g.s
	for k, c := range []Cfg{{Base: 1800, Fuzz: 300}, {Base: 1800, Fuzz: 0}, {Base: 1, Fuzz: 50}, {Base: 3600, Fuzz: 1}, {Base: 600, Fuzz: 3000}, {Base: 60, Fuzz: 5}, {Base: 0, Fuzz: 7}, {Base: 86400, Fuzz: 100000}} {
		d := defaultCfg
		d.Base, d.Fuzz, d.Trim = c.Base, c.Fuzz, 0
		s.threads = 1
		s.reset(d)
		g.seen, g.ctimes = map[string]int{}, map[string]int{}
		x := s.src("i1", 0)
		g.connect(x)
		for _, proto := range []string{"udp", "http", "httpc"} {
			lo, hi := math.MaxInt32, -1
			a := ann{h: s.w.hs["h1"], p: s.w.ps["p2"], port: 77, left: 1, numwant: -1}
			q := "GET /announce?info_hash=" + g.esc(string(a.h[:]), 1) + "&peer_id=" + g.esc(string(a.p[:]), 1) + "&port=77"
			if proto == "httpc" {
				q += "&compact=1"
			}
			q += " HTTP/1.1\r\n\r\n"
			n := 400
			t := s.t
			for i := 0; i < n; i++ {
				if i > 2 {
					s.t = discard // the same announce again and again
				}
				v := -1
				if proto == "udp" {
					if rs := s.send(x, a.udp(x.cur, uint32(i))); len(rs) == 1 && len(rs[0]) >= 12 {
						v = int(int32(binary.BigEndian.Uint32(rs[0][8:])))
					}
				} else if r := string(s.request("i1", []byte(q))); strings.Contains(r, "8:intervali") {
					_, r, _ = strings.Cut(r, "8:intervali")
					r, _, _ = strings.Cut(r, "e")
					v, _ = strconv.Atoi(r)
				}
				lo, hi = min(lo, v), max(hi, v)
			}
			s.t = t
			s.t.add(M{"e": "spread", "proto": proto, "n": n, "lo": lo, "hi": hi, "k": k})
		}
	}
	s.stop()
}

// huge: a swarm of more peers than sixteen bits count, seen through the sockets.
func (g *G) huge() {
	s := g.s
	c := defaultCfg
	c.Trim, c.NumDef, c.NumLim = 0, 3, 5
	s.backup, s.threads = true, 1
	s.reset(c)
	g.seen, g.ctimes = map[string]int{}, map[string]int{}
	g.hs, g.ps = s.w.hn[:2], s.w.pn
	h := s.w.hs["h1"]
	var ids [2][][20]byte // leeches, seeds
	n, addr := 0, crowdAddr
	k := func(c bool) int {
		if c {
			return 1
		}
		return 0
	}
	ev := func(e string, n int, c bool) { s.t.add(M{"e": e, "h": ints(h[:]), "n": n, "c": c}) }
	join := func(m int, c bool) {
		for i := 0; i < m; i++ {
			n++
			var id [20]byte
			copy(id[:], "crowd")
			binary.BigEndian.PutUint32(id[16:], uint32(n))
			s.db.Save(addr, uint16(1+i%60000), c, storage.Hash(h), storage.PeerID(id))
			ids[k(c)] = append(ids[k(c)], id)
		}
		ev("crowdjoin", m, c)
	}
	flip := func(m int, c bool) {
		for _, id := range ids[k(!c)][:m] {
			s.db.Save(crowdAddr, 9, c, storage.Hash(h), storage.PeerID(id))
		}
		ids[k(c)] = append(ids[k(c)], ids[k(!c)][:m]...)
		ids[k(!c)] = ids[k(!c)][m:]
		ev("crowdflip", m, c)
	}
	leave := func(m int, c bool) {
		for _, id := range ids[k(c)][:m] {
			s.db.Drop(storage.Hash(h), storage.PeerID(id))
		}
		ids[k(c)] = ids[k(c)][m:]
		ev("crowdleave", m, c)
	}
	look := func() {
		for _, n := range s.real {
			if n != "i1" && n != s.real[len(s.real)-1] {
				continue
			}
			x := s.src(n, 0)
			if x.cur == nil {
				g.connect(x)
			}
			g.tx++
			s.send(x, udpScrape(x.cur, g.tx, s.w.hs["h2"], h, s.w.hs["h3"]))
			g.udpAnnounce(x, "h1", g.one(g.ps), 0)
			q := "info_hash=" + g.esc(string(h[:]), 1)
			s.request(n, []byte("GET /scrape?"+q+" HTTP/1.1\r\n\r\n"))
			s.request(n, []byte("GET /announce?"+g.query(g.annParams(h, s.w.ps[g.one(g.ps)], 5, 0))+" HTTP/1.1\r\n\r\n"))
		}
		s.dump(s.w.hs["h2"])
		s.obs()
	}
	g.udpAnnounce(s.src("i1", 0), "h2", "p1", 0)
	look()
	join(65530, true)
	for i := 0; i < 4; i++ {
		look()
		join(2, true)
	}
	join(70000, false)
	look()
	flip(65300, false)
	look()
	s.save()
	s.restart()
	for _, x := range s.srcs {
		x.cur = nil
	}
	look()
	flip(70001, true)
	look()
	leave(4000, true)
	leave(60000, false)
	look()
	s.adv(c.Expiry + 1)
	s.trim()
	ids = [2][][20]byte{}
	for _, x := range s.srcs {
		x.cur = nil
	}
	look()

	// lists as long as the limit, and longer than a datagram
	crowd := []netip.Addr{crowdAddr}
	if s.v6 {
		crowd = append(crowd, netip.MustParseAddr("2001:db8::64"))
	}
	for _, a := range crowd {
		c := c
		c.NumDef, c.NumLim = 30000, 25000
		addr, c.CrowdIP = a, ints(a.AsSlice())
		if a.Is6() {
			c.NumDef, c.NumLim = 4500, 5000
		}
		s.reset(c)
		g.seen, g.ctimes = map[string]int{}, map[string]int{}
		x := s.src("i1", 0)
		if a.Is6() {
			x = s.src(s.real[len(s.real)-1], 0)
		}
		g.connect(x)
		ask := func(n int32) {
			g.tx++
			s.send(x, ann{h: h, p: s.w.ps["p1"], port: 77, left: 1, numwant: n}.udp(x.cur, g.tx))
		}
		fit := (65535 - 28 - 20) / (len(a.AsSlice()) + 2)
		join(fit-10, true)
		ask(-1)
		join(30, false)
		ask(1 << 20)
		ask(3)
		join(1000, true)
		ask(int32(fit) - 40)
		ask(-1)
		q := "info_hash=" + g.esc(string(h[:]), 0) + "&peer_id=" + strings.Repeat("%BB", 20) + "&port=99"
		s.request("i1", []byte("GET /announce?"+q+"&compact=1 HTTP/1.1\r\n\r\n"))
		s.request("i1", []byte("GET /announce?"+q+"&numwant=300&no_peer_id=1 HTTP/1.1\r\n\r\n"))
		s.obs()
		s.stop()
	}
	s.forget()
}

// many: crowds of UDP sources that connect, each its own.
func (g *G) many() {
	s := g.s
	c := defaultCfg
	c.Trim, c.ConnExpiry, c.ConnTrim = 0, 300, 60
	s.backup, s.threads, s.nofence = g.p(0.5), 1+g.Intn(8), true
	s.reset(c)
	g.seen, g.ctimes = map[string]int{}, map[string]int{}
	g.hs, g.ps = s.w.hn[:2], s.w.pn
	ids := map[int][][]byte{}
	net2 := 16 + os.Getpid()%200 // two drivers rarely share it
	source := func(k, i int) (*net.UDPConn, error) {
		j := i / 4
		a := net.IPv4(127, byte(net2+k%4), byte(j>>8), byte(j))
		lc := net.ListenConfig{Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
		}}
		pc, err := lc.ListenPacket(context.Background(), "udp4", fmt.Sprintf("%s:%d", a, 7001+10*k+i%4))
		if err != nil {
			return nil, err
		}
		return pc.(*net.UDPConn), nil
	}
	// each of the sources from..to of batch k sends what req makes and hands the reply over
	each := func(k, from, to int, req func(i int) []byte, got func(i int, r []byte)) {
		var wg sync.WaitGroup
		var next atomic.Int64
		var lost atomic.Int32
		next.Store(int64(from))
		for t := 0; t < 8; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 2048)
				for lost.Load() < 3 {
					i := int(next.Add(1)) - 1
					if i >= to {
						return
					}
					u, err := source(k, i)
					must(err)
					u.WriteToUDP(req(i), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: s.uport})
					u.SetReadDeadline(time.Now().Add(patience))
					n, _, err := u.ReadFromUDP(b)
					u.Close()
					if err != nil {
						lost.Add(1)
						continue
					}
					got(i, append([]byte{}, b[:n]...))
				}
			}()
		}
		wg.Wait()
	}
	join := func(k, n int) {
		l := make([][]byte, n)
		var ok atomic.Int32
		each(k, 0, n, func(i int) []byte {
			return udpHead([]byte{0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80}, 0, uint32(i))
		}, func(i int, r []byte) {
			if len(r) == 16 && binary.BigEndian.Uint32(r) == 0 && binary.BigEndian.Uint32(r[4:]) == uint32(i) {
				l[i] = r[8:]
				ok.Add(1)
			}
		})
		ids[k] = l
		all, distinct := map[string]bool{}, true
		for _, l := range ids {
			for _, id := range l {
				if id == nil {
					continue
				}
				if all[string(id)] {
					distinct = false
				}
				all[string(id)] = true
			}
		}
		s.t.add(M{"e": "connjoin", "k": k, "n": n, "ok": ok.Load(), "distinct": distinct})
		if int(ok.Load()) != n {
			fatalStop(s.t, "sources that connected got no id")
		}
	}
	use := func(k, n int, swapped bool) {
		l := ids[k]
		from := g.Intn(len(l) - n + 1)
		var good, refused atomic.Int32
		each(k, from, from+n, func(i int) []byte {
			if swapped {
				i = (i + 1 + i%7) % len(l)
			}
			return udpScrape(l[i], uint32(i), s.w.hs["h2"])
		}, func(i int, r []byte) {
			switch {
			case len(r) >= 8 && binary.BigEndian.Uint32(r) == 2:
				good.Add(1)
			case len(r) >= 8 && binary.BigEndian.Uint32(r) == 3:
				refused.Add(1)
			}
		})
		s.t.add(M{"e": "connuse", "k": k, "n": n, "swapped": swapped, "good": good.Load(), "refused": refused.Load()})
	}
	look := func() {
		time.Sleep(2 * time.Millisecond)
		s.obs()
		s.counters()
	}
	x := s.src("i1", 0)
	g.connect(x)
	join(1, 500)
	look()
	use(1, 500, false)
	use(1, 400, true)
	a := 1024 + g.Intn(1024)
	join(2, a)
	look()
	join(3, 66000-a)
	look()
	use(1, 300, false)
	use(2, a, false)
	use(3, 1500, false)
	use(3, 400, true)
	s.adv(c.ConnTrim + 5)
	look()
	join(1, 700) // again, 200 of them for the first time
	s.adv(c.ConnExpiry - c.ConnTrim - 60)
	look()
	use(3, 300, false)
	s.save()
	s.adv(118)
	look()
	use(1, 700, false)
	use(2, 200, false)
	use(3, 200, false)
	g.connect(x)
	join(2, 300)
	s.save()
	s.restart()
	look()
	use(1, 700, false)
	use(2, 300, false)
	use(2, 200, true)
	use(3, 200, false)
	g.udpAnnounce(x, "h1", "p1", 0)
	s.adv(c.ConnExpiry + 2*c.ConnTrim)
	look()
	use(1, 100, false)
	use(2, 100, false)
	s.stop()
	s.forget()
}

// stall: clients that connect and never finish a request.
func (g *G) stall(seed int64) {
	s := g.s
	for seg := 0; seg < 2; seg++ {
		c := defaultCfg
		c.Trim = 0
		s.threads, s.readTO = 1+seg, 700*time.Millisecond
		s.reset(c)
		g.seen, g.ctimes = map[string]int{}, map[string]int{}
		g.hs, g.ps = s.w.hn[:2], s.w.pn[:4]
		limit := 700 + 2300 // the machine may be busy
		for k := 0; k < 3; k++ {
			var wg sync.WaitGroup
			var mu sync.Mutex
			var ms []int
			for i := 0; i <= seg; i++ { // every worker gets one
				cn, err := s.dialFrom(s.w.ips["i1"])
				must(err)
				wg.Add(1)
				go func() {
					defer wg.Done()
					t0 := time.Now()
					cn.SetReadDeadline(t0.Add(8 * time.Second))
					b := make([]byte, 10)
					for {
						if _, err := cn.Read(b); err != nil {
							break
						}
					}
					mu.Lock()
					ms = append(ms, int(time.Since(t0).Milliseconds()))
					mu.Unlock()
					cn.Close()
				}()
			}
			time.Sleep(30 * time.Millisecond)
			// the workers come back to those who do ask
			s.request("i2", []byte("GET /scrape?info_hash=12345678901234567890 HTTP/1.1\r\n\r\n"))
			wg.Wait()
			for _, m := range ms {
				s.t.add(M{"e": "stall", "ms": m, "limit": limit})
			}
		}
		// connections opened and dropped at once, half a request, and reset ones
		for k := 0; k < 30; k++ {
			cn, err := s.dialFrom(s.w.ips["i1"])
			must(err)
			switch k % 3 {
			case 1:
				cn.Write([]byte("GET /heartb"))
			case 2:
				cn.Write([]byte("GET /stats HTTP/1.1\r\n\r\n"))
			}
			if tc, ok := cn.(interface{ SetLinger(int) error }); ok && k%2 == 0 {
				tc.SetLinger(0)
			}
			cn.Close()
			if k%5 == 0 {
				s.request("i3", []byte("GET /announce?"+g.query(g.annParams(s.w.hs["h1"], s.w.ps["p1"], 80, 0))+" HTTP/1.1\r\n\r\n"))
			}
		}
		x := s.src("i1", 0)
		g.connect(x)
		g.udpAnnounce(x, "h1", "p2", 0)
		s.request("i1", []byte("GET /heartbeat HTTP/1.1\r\n\r\n"))
		s.dump(s.w.hs["h1"])
	}
	s.stop()
}

// parallel: many clients at once, each with torrents, peers and sockets of its
// own, so that each client's history is one a lone client could have had; and
// others sending garbage.
func (g *G) parallel(n, ops, threads int, http float64, noise bool) {
	s := g.s
	c := defaultCfg
	c.Trim = 0
	c.Heroku = g.heroku
	s.threads = threads
	s.reset(c)
	g.clients(n, ops, http, noise, c, 0)
}

// reconnect: clients whose connection IDs are about to be expired by a pass
// get new ones while it is under way; those are good.
func (g *G) reconnect(threads int) {
	s := g.s
	c := defaultCfg
	c.Trim, c.ConnExpiry, c.ConnTrim = 0, 10, 5
	s.threads = threads
	s.reset(c)
	const n, each = 10, 12
	traces := make([][]M, n)
	subs := make([]*G, n)
	for k := range subs {
		sub := &Srv{w: newWorld(), t: &Trace{keep: &traces[k]}, cfg: c, db: s.db, udp: s.udp, http: s.http, dir: s.dir, srcs: map[string]*Src{},
			uport: s.uport, hport: s.hport, threads: threads, readTO: s.readTO, v6: s.v6, nofence: true, up: true}
		sub.w.addHash("h1", [20]byte{1, byte(k)})
		sub.w.addPeer("p1", [20]byte{2, byte(k)})
		sub.w.addIP("i1", netip.AddrFrom4([4]byte{127, 8, byte(k), 1}))
		cg := &G{Rand: rand.New(rand.NewSource(g.Int63())), s: sub, hs: sub.w.hn, ps: sub.w.pn, ips: sub.w.in4, seen: map[string]int{}, ctimes: map[string]int{}, tx: uint32(k) << 20}
		subs[k] = cg
		sub.t.add(M{"e": "reset", "cfg": c, "cont": 1})
		for j := 0; j < each; j++ {
			cg.connect(sub.src("i1", j))
		}
	}
	// the pass that is to remove them all comes at fifteen
	vtime.Advance(11 * time.Second)
	var wg sync.WaitGroup
	for _, cg := range subs {
		cg.s.t.add(M{"e": "advtrim", "d": 16})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, j := range cg.Perm(each) {
				y := cg.s.src("i1", j)
				if cg.p(0.7) {
					cg.connect(y)
				}
			}
		}()
	}
	vtime.Advance(4 * time.Second)
	wg.Wait()
	vtime.Advance(time.Second)
	for k, cg := range subs {
		for _, j := range cg.Perm(each) {
			cg.udpAnnounce(cg.s.src("i1", j), "h1", "p1", 0)
		}
		for _, x := range cg.s.srcs {
			x.c.Close()
		}
		for _, e := range traces[k] {
			s.t.add(e)
		}
	}
	s.stop()
}

// parallelOn is parallel on the servers as they run, without the noise.
func (g *G) parallelOn(n, ops int, http float64, round int) {
	g.clients(n, ops, http, false, g.s.cfg, round)
}

func (g *G) clients(n, ops int, http float64, noise bool, c Cfg, round int) {
	s := g.s
	threads := s.threads
	var wg sync.WaitGroup
	done := make(chan struct{})
	traces := make([][]M, n)
	for k := 0; k < n; k++ {
		sub := &Srv{w: newWorld(), t: &Trace{keep: &traces[k]}, cfg: c, db: s.db, udp: s.udp, http: s.http, dir: s.dir, srcs: map[string]*Src{},
			uport: s.uport, hport: s.hport, threads: threads, readTO: s.readTO, v6: s.v6, nofence: true, up: true}
		for i := 1; i <= 3; i++ {
			var h [20]byte
			for j := range h {
				h[j] = byte(round*n*3 + k*3 + i)
			}
			sub.w.addHash(fmt.Sprintf("h%d", i), h)
		}
		for i := 1; i <= 6; i++ {
			var p [20]byte
			for j := range p {
				p[j] = byte(100 + k*6 + i)
			}
			sub.w.addPeer(fmt.Sprintf("p%d", i), p)
		}
		ip := netip.AddrFrom4([4]byte{127, 9, byte(k), 1})
		sub.w.addIP("i1", ip)
		if s.v6 {
			sub.w.addIP("j1", netip.IPv6Loopback())
		}
		cg := &G{Rand: rand.New(rand.NewSource(g.Int63())), s: sub, hs: sub.w.hn, ps: sub.w.pn, ips: append(append([]string{}, sub.w.in4...), sub.w.in6...), seen: map[string]int{}, ctimes: map[string]int{}, tx: uint32(k) << 20}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			if noise {
				sub.t.add(M{"e": "reset", "cfg": c})
			} else {
				sub.t.add(M{"e": "reset", "cfg": c, "cont": 1})
			}
			for i := 0; i < ops && sub.unanswered < 2; i++ {
				switch {
				case cg.p(http):
					switch cg.Intn(6) {
					case 0:
						sub.request("i1", []byte(cg.scrapeReqOwn()))
					case 1: // as short as it gets, behind longer ones of others
						sub.request("i1", []byte(cg.one([]string{"GET /announce?info_hash=%41", "GET /scrape?info_hash=", "GET /", "G", "GET /heartbeat HTTP/1.1", "GET /announce", "R0VU"})))
					case 2:
						sub.request("i1", []byte(cg.one([]string{"GET /stats HTTP/1.1\r\n\r\n", "GET /stats HTTP/1.1\r\n\r\n", "GET /index.html HTTP/1.1\r\n\r\n", "GET /nope HTTP/1.1\r\n\r\n", "GET /heartbeat HTTP/1.1\r\n\r\n"})))
					default:
						ps := cg.annParams(sub.w.hs[cg.one(cg.hs)], sub.w.ps[cg.one(cg.ps)], 1+cg.Intn(65535), 0.03)
						sub.request("i1", []byte("GET /announce?"+cg.query(ps)+" HTTP/1.1\r\n\r\n"))
					}
				default:
					y := sub.src(cg.one(cg.ips), cg.Intn(2))
					if y.cur == nil || cg.p(0.05) {
						cg.connect(y)
					}
					switch cg.Intn(5) {
					case 0:
						cg.tx++
						sub.send(y, udpScrape(cg.connid(y, 0.1), cg.tx, sub.w.hs[cg.one(cg.hs)], sub.w.hs[cg.one(cg.hs)]))
					case 1:
						a := ann{h: sub.w.hs[cg.one(cg.hs)], p: sub.w.ps[cg.one(cg.ps)], port: 9}
						cg.tx++
						sub.send(y, a.udp(cg.connid(y, 0), cg.tx)[:16+cg.Intn(82)]) // too short
					default:
						cg.udpAnnounce(y, cg.one(cg.hs), cg.one(cg.ps), 0.1)
					}
				}
			}
			for _, h := range cg.hs {
				sub.dump(sub.w.hs[h])
			}
			for _, x := range sub.srcs {
				x.c.Close()
			}
		}(k)
	}
	// noise
	for k := 0; k < 6 && noise; k++ {
		seed := g.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			u, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", s.uport))
			must(err)
			defer u.Close()
			ng := &G{Rand: rng, s: s, hs: []string{"h4"}, ps: s.w.pn, seen: map[string]int{}, ctimes: map[string]int{}}
			for {
				select {
				case <-done:
					return
				default:
				}
				b := make([]byte, rng.Intn(1400))
				for i := range b {
					b[i] = 0xEE
				}
				if len(b) > 16 {
					binary.BigEndian.PutUint32(b[8:], uint32(rng.Intn(6)))
				}
				u.Write(b)
				if cn, err := s.dialFrom(s.w.ips["i7"]); err == nil {
					r := ng.oddRequest()
					if rng.Intn(3) == 0 {
						r = "GET /announce?port=99&numwant=50&event=stopped&compact=1&peer_id=" + strings.Repeat("%EE", 20) + "&info_hash=" + strings.Repeat("%EE", 20) + " HTTP/1.1\r\nX-Forwarded-For: 6.6.6.6\r\n\r\n" + strings.Repeat("E", rng.Intn(2000))
					}
					if rng.Intn(4) == 0 || k > 3 {
						r = "GET /stats HTTP/1.1\r\n\r\n"
					}
					cn.Write([]byte(r))
					if rng.Intn(2) == 0 {
						cn.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
						cn.Read(make([]byte, 4096))
					}
					cn.Close()
				}
				if k <= 3 {
					time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
				}
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	go func() {
		// clients end on their own; the noise ends with them
		cl := time.After(120 * time.Second)
		for {
			time.Sleep(20 * time.Millisecond)
			all := true
			for k := range traces {
				keepMu.Lock()
				m := len(traces[k])
				if m == 0 || traces[k][m-1]["e"] != "dump" {
					all = false
				}
				keepMu.Unlock()
			}
			select {
			case <-cl:
				all = true
			default:
			}
			if all {
				close(done)
				return
			}
		}
	}()
	<-fin
	for k := range traces {
		for _, e := range traces[k] {
			s.t.add(e)
		}
	}
	if !noise {
		return
	}
	s.stop()
	// what the noise announced
	for _, p := range s.w.pn {
		s.db.Drop(storage.Hash(s.w.hs["h4"]), storage.PeerID(s.w.ps[p]))
	}
}

func published() M {
	v := func(n string) int64 {
		if x, ok := expvar.Get(n).(*expvar.Int); ok {
			return x.Value()
		}
		return -1
	}
	return M{"hits": v("trakx.requests.hits"), "connects": v("trakx.requests.connects"), "announces": v("trakx.requests.announces"), "scrapes": v("trakx.requests.scrapes"),
		"cerr": v("trakx.errors.client"), "serr": v("trakx.errors.server"), "seeds": v("trakx.database.seeds"), "leeches": v("trakx.database.leeches"), "peers": v("trakx.database.peers"),
		"ips": v("trakx.database.ips"), "hashes": v("trakx.database.hashes"), "conns": v("trakx.database.udpconnections")}
}

// publish: the counters are published every so often while requests come in,
// first one at a time, then from several clients at once.
func (g *G) publish(n int, ops string) {
	s := g.s
	c := defaultCfg
	c.Trim, c.Heroku = 0, g.heroku
	s.threads, s.nojump = 1, true
	if n == 0 {
		s.threads = 6
		c.ConnExpiry, c.ConnTrim = 100_000_000, 100_000_000
	}
	s.reset(c)
	const every = 7
	config.Config.ExpvarInterval = secs(every)
	base := vtime.Sleepers()
	go stats.Publish(s.db, func() int64 { return int64(s.udp.Connections()) })
	vtime.WaitSleepers(base + 1)
	g.seen, g.ctimes = map[string]int{}, map[string]int{}
	g.hs, g.ps, g.ips = s.w.hn, s.w.pn, s.w.in4[:4]
	tick := func(m int) int64 {
		u := vtime.Now()
		return every*int64(m) - int64(u.Sub(u.Truncate(every*time.Second))/time.Second)
	}
	for i := 0; i < n; i++ {
		for k := g.Intn(12); k > 0; k-- {
			switch y := g.srcAny(); g.Intn(6) {
			case 0:
				g.connect(y)
			case 1:
				g.s.send(y, g.oddDatagram(y))
			case 2:
				s.request(g.one(g.ips), []byte(g.oddRequest()))
			case 3:
				s.request(g.one(g.ips), []byte(g.scrapeReq(0.1)))
			default:
				if y.cur == nil {
					g.connect(y)
				}
				g.udpAnnounce(y, g.one(g.hs), g.one(g.ps), 0.2)
			}
		}
		if g.p(0.3) { // not yet
			if d := tick(1) - 1; d > 0 {
				s.adv(int(d))
				s.counters()
			}
		}
		s.adv(int(tick(1)))
		p := published()
		p["e"] = "publish"
		s.t.add(p)
		s.counters()
	}
	// overlapping
	rounds := 3
	if n > 0 {
		rounds = 0
	}
	clients, per := 6, 60
	if v, err := strconv.Atoi(ops); err == nil {
		per = v
	}
	for r := 0; r < rounds; r++ {
		s.t.add(M{"e": "reset", "cfg": c})
		zeroCounters()
		sum := M{}
		add := func() {
			for k, v := range published() {
				x, _ := sum[k].(int64)
				sum[k] = x + v.(int64)
			}
		}
		for _, k := range []string{"hits", "connects", "announces", "scrapes"} {
			sum[k] = int64(0)
		}
		stop, ended := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(ended)
			for {
				vtime.Advance(time.Duration(tick(1)) * time.Second)
				add()
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rand.Intn(300)) * time.Microsecond):
				}
			}
		}()
		g.parallelOn(clients, per, []float64{0.3, 0, 1}[r%3], r)
		close(stop)
		<-ended
		s.t.add(M{"e": "total", "pub": M{"hits": sum["hits"], "connects": sum["connects"], "announces": sum["announces"], "scrapes": sum["scrapes"], "cerr": 0, "serr": 0},
			"left": M{"hits": stats.Hits.Load(), "connects": stats.Connects.Load(), "announces": stats.Announces.Load(), "scrapes": stats.Scrapes.Load(), "cerr": stats.ClientErrors.Load(), "serr": stats.ServerErrors.Load()}})
	}
	s.stop()
}

func (g *G) scrapeReqOwn() string {
	var l []string
	for i := 0; i < 1+g.Intn(4); i++ {
		h := g.s.w.hs[g.one(g.hs)]
		l = append(l, "info_hash="+g.esc(string(h[:]), 1))
	}
	return "GET /scrape?" + strings.Join(l, "&") + " HTTP/1.1\r\n\r\n"
}

func cmdSrv(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	n, _ := strconv.Atoi(args["n"])
	dir := args["dir"]
	must(os.MkdirAll(dir, 0o755))
	w := stdWorld(4, 12, 7, 5)
	s := &Srv{w: w, t: newTrace(args["out"]), dir: dir, srcs: map[string]*Src{}, v6: haveV6(), threads: 1}
	s.reachable()
	s.t.add(M{"e": "dict", "files": filesDict(args["repo"])})
	g := &G{Rand: rand.New(rand.NewSource(seed)), s: s, heroku: args["heroku"] != "", tx: uint32(seed)}
	switch args["profile"] {
	case "script":
		b, err := os.ReadFile(args["script"])
		must(err)
		dec := json.NewDecoder(bytesReader(b))
		for i := 0; dec.More(); i++ {
			var o map[string]any
			must(dec.Decode(&o))
			g.execute(o, i)
			g.scriptProbe(o, i)
		}
		s.stop()
	case "spread":
		g.spread()
	case "huge":
		g.huge()
	case "many":
		g.many()
	case "reconnect":
		vsync.Chaos.Store(50)
		vsync.Naps.Store(100)
		for i := 0; i < n; i++ {
			g.reconnect([]int{4, 8}[i%2])
		}
	case "stall":
		g.stall(seed)
	case "publish":
		vsync.Chaos.Store(100)
		g.publish(n, args["ops"])
	case "parallel":
		if args["chaos"] != "" {
			vsync.Chaos.Store(50)
		}
		th := 6
		for i := 0; i < n; i++ {
			ops := 60
			if v, err := strconv.Atoi(args["ops"]); err == nil {
				ops = v
			}
			g.parallel(6, ops, []int{th, 1, 16}[i%3], []float64{0.5, 0.1, 0.9}[i%3], true)
		}
	default:
		pf, ok := srvProfiles[args["profile"]]
		if !ok {
			fatalf("unknown profile %s", args["profile"])
		}
		pf.segs = n
		genSrv(g, pf)
	}
	s.t.close()
	fmt.Printf("events=%d\n", s.t.n)
}
