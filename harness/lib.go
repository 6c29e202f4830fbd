//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"sync"

	"github.com/crimist/trakx/bencoding"
	"github.com/crimist/trakx/tracker/udp/protocol"
)

// The packages other programs could use too: the messages of the UDP protocol
// and the bencoder, with arbitrary values and arbitrary bytes.

type libDrv struct {
	*rand.Rand
	t    *Trace
	kept []byte         // the last result
	used map[string]any // messages that have been unmarshalled into before
}

// recall looks at the last result again: it is the caller's, whatever is called next.
func (d *libDrv) recall() {
	if d.kept != nil {
		d.t.add(M{"e": "recall", "out": ints(d.kept)})
	}
}

func (d *libDrv) bytes(n int) []byte {
	b := make([]byte, n)
	switch d.Intn(4) {
	case 0: // zeros with a few others
		for k := d.Intn(4); k > 0 && n > 0; k-- {
			b[d.Intn(n)] = byte(d.Intn(256))
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
		for k := d.Intn(4); k > 0 && n > 0; k-- {
			b[d.Intn(n)] = byte(d.Intn(256))
		}
	default:
		d.Read(b)
	}
	return b
}

func be(v uint64, n int) []int {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return ints(b[8-n:])
}

// field is a message's field as the bytes it stands for, most significant first.
func field(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8, reflect.Int:
		return be(uint64(v.Int()), int(v.Type().Size()))
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uint:
		return be(v.Uint(), int(v.Type().Size()))
	case reflect.Array:
		l := make([]int, v.Len())
		for i := range l {
			l[i] = int(v.Index(i).Uint())
		}
		return l
	case reflect.Slice:
		l := []int{}
		for i := 0; i < v.Len(); i++ {
			x := v.Index(i)
			switch x.Kind() {
			case reflect.Uint8:
				l = append(l, int(x.Uint()))
			case reflect.Array:
				l = append(l, field(x).([]int)...)
			case reflect.Struct:
				for k := 0; k < x.NumField(); k++ {
					l = append(l, field(x.Field(k)).([]int)...)
				}
			}
		}
		return l
	}
	fatalf("a field of kind %v", v.Kind())
	return nil
}

func fields(m any) M {
	v := reflect.ValueOf(m).Elem()
	r := M{}
	for i := 0; i < v.NumField(); i++ {
		r[v.Type().Field(i).Name] = field(v.Field(i))
	}
	return r
}

func (d *libDrv) fill(v reflect.Value) {
	num := func(bits int) uint64 {
		switch d.Intn(5) {
		case 0:
			return uint64(d.Intn(5))
		case 1:
			return 1 << uint(d.Intn(bits))
		case 2:
			return ^uint64(0) - uint64(d.Intn(3))
		default:
			return d.Uint64()
		}
	}
	switch v.Kind() {
	case reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8, reflect.Int:
		n := int(v.Type().Bits())
		v.SetInt(int64(num(n)) << uint(64-n) >> uint(64-n))
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uint:
		n := int(v.Type().Bits())
		v.SetUint(num(n) << uint(64-n) >> uint(64-n))
	case reflect.Array:
		b := d.bytes(v.Len())
		for i := range b {
			v.Index(i).SetUint(uint64(b[i]))
		}
	case reflect.Slice:
		n := d.Intn(6)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n = []int{0, 1, 6, 18, 12, 36, d.Intn(300)}[d.Intn(7)]
			if d.Intn(60) == 0 {
				n = []int{1200, 1452, 1480, 3600, 65507 - 20}[d.Intn(5)]
			}
		} else if d.Intn(4) == 0 {
			n = d.Intn(90)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			d.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.fill(v.Field(i))
		}
	default:
		fatalf("a field of kind %v", v.Kind())
	}
}

type marshaller interface{ Marshall() ([]byte, error) }
type unmarshaller interface{ Unmarshall([]byte) error }

var messages = []struct {
	name string
	make func() any
	size int
}{
	{"connect", func() any { return new(protocol.Connect) }, 16},
	{"connectresp", func() any { return new(protocol.ConnectResp) }, 16},
	{"announce", func() any { return new(protocol.Announce) }, 98},
	{"announceresp", func() any { return new(protocol.AnnounceResp) }, 20},
	{"scrape", func() any { return new(protocol.Scrape) }, 16},
	{"scraperesp", func() any { return new(protocol.ScrapeResp) }, 8},
	{"error", func() any { return new(protocol.Error) }, 8},
}

func guard(f func() error) (ok bool, how string) {
	defer func() {
		if r := recover(); r != nil {
			ok, how = false, fmt.Sprint("panic: ", r)
		}
	}()
	if err := f(); err != nil {
		return false, "error"
	}
	return true, "ok"
}

func (d *libDrv) codec() {
	m := messages[d.Intn(len(messages))]
	x := m.make()
	if y, ok := x.(marshaller); ok {
		d.fill(reflect.ValueOf(x).Elem())
		e := M{"e": "marshal", "msg": m.name, "f": fields(x), "out": []int{}}
		_, e["how"] = guard(func() error {
			b, err := y.Marshall()
			if err == nil {
				e["out"] = ints(b)
				d.recall()
				d.kept = b
			}
			return err
		})
		e["f2"] = fields(x)
		d.t.add(e)
	}
	if u, ok := d.used[m.name]; ok && d.Intn(2) == 0 {
		x = u
	}
	if y, ok := x.(unmarshaller); ok {
		n := m.size
		switch d.Intn(4) {
		case 0:
			n = d.Intn(m.size + 1)
		case 1:
			n += d.Intn(50)
		case 2:
			n += []int{0, 1, 2, 6, 12, 18, 19, 20, 21, 40, 59, 60, 1480}[d.Intn(13)]
			if d.Intn(10) == 0 {
				n = 65507
			}
		}
		b := d.bytes(n)
		in := ints(b)
		e := M{"e": "unmarshal", "msg": m.name, "in": in}
		_, e["how"] = guard(func() error { return y.Unmarshall(b) })
		e["f"], e["in2"] = fields(x), ints(b)
		d.t.add(e)
		// what was read stays read when the datagram's buffer is used again
		if e["how"] == "ok" {
			clear(b)
			d.t.add(M{"e": "unmarshalled", "msg": m.name, "in": in, "f": fields(x)})
		}
		d.used[m.name] = x
	}
}

// ---- bencoding

func bStr(b []byte) M       { return M{"t": "s", "v": ints(b)} }
func bInt(s string) M       { return M{"t": "i", "n": ints([]byte(s))} }
func bPair(k string, v M) M { return M{"k": ints([]byte(k)), "v": v} }

func (d *libDrv) str() string {
	if d.Intn(150) == 0 { // more than fits anywhere
		return string(d.bytes([]int{255, 256, 999, 1000, 1472, 4096, 4097, 9000, 70000}[d.Intn(9)]))
	}
	switch d.Intn(6) {
	case 0:
		return ""
	case 1:
		return []string{"e", "i1e", "d", "1:a", "-1", "0:", "l", ":", "peers", "interval"}[d.Intn(10)]
	case 2:
		return string(d.bytes(d.Intn(200)))
	}
	return string(d.bytes(1 + d.Intn(20)))
}

func (d *libDrv) key() string { return strconv.Itoa(d.Intn(1000)) + d.str() }

func (d *libDrv) int64() int64 {
	return []int64{0, 1, -1, 9, 10, -10, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32, int64(d.Intn(5000)), int64(d.Uint64())}[d.Intn(13)]
}

// some is a value Any takes, and what it is; or one it does not take.
func (d *libDrv) some(depth int) (v any, is M) {
	n := d.int64()
	sgn, uns := func(x int64) M { return bInt(strconv.FormatInt(x, 10)) }, func(x uint64) M { return bInt(strconv.FormatUint(x, 10)) }
	switch d.Intn(20) {
	case 0:
		return int(n), sgn(n)
	case 1:
		return int8(n), sgn(int64(int8(n)))
	case 2:
		return int16(n), sgn(int64(int16(n)))
	case 3:
		return int32(n), sgn(int64(int32(n)))
	case 4:
		return n, sgn(n)
	case 5:
		return uint(n), uns(uint64(n))
	case 6:
		return uint8(n), uns(uint64(uint8(n)))
	case 7:
		return uint16(n), uns(uint64(uint16(n)))
	case 8:
		return uint32(n), uns(uint64(uint32(n)))
	case 9:
		return uint64(n), uns(uint64(n))
	case 10, 11:
		s := d.str()
		return s, bStr([]byte(s))
	case 12:
		s := d.str()
		return []byte(s), bStr([]byte(s))
	case 13:
		l, is := []string{}, []M{}
		for k := d.Intn(5); k > 0; k-- {
			s := d.str()
			l, is = append(l, s), append(is, bStr([]byte(s)))
		}
		return l, M{"t": "l", "l": is}
	case 14:
		m, is := map[string]int32{}, []M{}
		for k := d.Intn(4); k > 0; k-- {
			m[d.key()] = int32(d.int64())
		}
		for k, v := range m {
			is = append(is, bPair(k, sgn(int64(v))))
		}
		return m, M{"t": "m", "d": is}
	case 15:
		m, is := map[string]map[string]int32{}, []M{}
		for k := d.Intn(3); k > 0; k-- {
			x := map[string]int32{}
			for j := d.Intn(3); j > 0; j-- {
				x[d.key()] = int32(d.int64())
			}
			m[d.key()] = x
		}
		for k, v := range m {
			y := []M{}
			for a, b := range v {
				y = append(y, bPair(a, sgn(int64(b))))
			}
			is = append(is, bPair(k, M{"t": "m", "d": y}))
		}
		return m, M{"t": "m", "d": is}
	case 16, 17:
		m, is := map[string]interface{}{}, []M{}
		bad := false
		for k := d.Intn(4); k > 0 && depth < 3; k-- {
			key := d.key()
			if _, ok := m[key]; ok {
				continue
			}
			v, x := d.some(depth + 1)
			m[key] = v
			bad = bad || x == nil
			is = append(is, bPair(key, x))
		}
		if bad {
			return m, nil
		}
		return m, M{"t": "m", "d": is}
	default:
		return []any{1.5, true, nil, struct{}{}, []int{1}, &n, map[int]int{}, float32(2)}[d.Intn(8)], nil
	}
}

func (d *libDrv) benc() {
	b := bencoding.NewDictionary()
	d.t.add(M{"e": "new"})
	for life := 1 + d.Intn(3); life > 0; life-- {
		d.pairs(b, 0)
		if life > 1 || d.Intn(2) == 0 {
			s := b.Get()
			d.recall()
			d.kept = nil // a string that changes would take unsafe
			d.t.add(M{"e": "get", "out": ints([]byte(s))})
		} else { // the bytes are this dictionary's own, but no other's
			s := b.GetBytes()
			d.recall()
			d.kept = s
			d.t.add(M{"e": "get", "out": ints(s)})
		}
		if life > 1 {
			b.Reset()
			d.t.add(M{"e": "new"})
		}
	}
}

func (d *libDrv) pairs(b *bencoding.Dictionary, depth int) {
	used := map[string]bool{}
	for n := d.Intn(6); n > 0; n-- {
		k := d.key()
		if used[k] {
			continue
		}
		used[k] = true
		put := func(v M) { d.t.add(M{"e": "put", "k": ints([]byte(k)), "v": v}) }
		switch d.Intn(9) {
		case 0:
			s := d.str()
			b.String(k, s)
			put(bStr([]byte(s)))
		case 1:
			s := []byte(d.str())
			b.StringBytes(k, s)
			put(bStr(s))
			clear(s)
		case 2, 3:
			x := d.int64()
			b.Int64(k, x)
			put(bInt(strconv.FormatInt(x, 10)))
		case 4:
			l, is := [][]byte{}, []M{}
			for j := d.Intn(5); j > 0; j-- {
				s := []byte(d.str())
				l, is = append(l, s), append(is, bStr(s))
			}
			b.BytesliceSlice(k, l)
			for _, s := range l {
				clear(s)
			}
			put(M{"t": "l", "l": is})
		case 5:
			x := d.int64()
			b.Dictionary(k, "d1:ai"+strconv.FormatInt(x, 10)+"e2:bc0:e")
			put(M{"t": "d", "d": []M{bPair("a", bInt(strconv.FormatInt(x, 10))), bPair("bc", bStr(nil))}})
		case 6:
			if depth > 2 {
				continue
			}
			if d.Intn(2) == 0 {
				b.StartDictionary(k)
			} else {
				kb := []byte(k)
				b.StartDictionaryBytes(kb)
				clear(kb)
			}
			d.t.add(M{"e": "open", "k": ints([]byte(k))})
			d.pairs(b, depth+1)
			b.EndDictionary()
			d.t.add(M{"e": "close"})
		default:
			v, is := d.some(0)
			ok, how := guard(func() error { return b.Any(k, v) })
			switch {
			case is == nil:
				d.t.add(M{"e": "refused", "how": how})
			case !ok:
				d.t.add(M{"e": "putfailed", "how": how, "k": ints([]byte(k)), "v": is})
			default:
				put(is)
			}
		}
	}
}

func cmdLib(args map[string]string) {
	n, _ := strconv.Atoi(args["n"])
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	par := 1
	if args["par"] != "" {
		par, _ = strconv.Atoi(args["par"])
	}
	t := newTrace(args["out"])
	t.add(M{"e": "dict"})
	// callers at the same time have nothing to do with each other
	logs := make([][]M, par)
	var wg sync.WaitGroup
	for i := range logs {
		wg.Add(1)
		d := &libDrv{Rand: rand.New(rand.NewSource(seed + int64(i))), t: &Trace{keep: &logs[i], solo: true}, used: map[string]any{}}
		if par == 1 {
			d.t = t
		}
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				if args["profile"] == "bencode" {
					d.benc()
				} else {
					d.codec()
				}
			}
		}()
	}
	wg.Wait()
	for _, l := range logs {
		t.add(M{"e": "caller"})
		for _, m := range l {
			t.add(m)
		}
	}
	t.close()
	fmt.Printf("events=%d\n", t.n)
}
