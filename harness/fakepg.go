//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// fakePG is enough of a Postgres server to hold the one table the backup
// keeps: the wire protocol, and the statements one would use on it.
type fakePG struct {
	mu     sync.Mutex
	l      net.Listener
	port   int
	table  bool
	rows   []pgRow
	nextID int
	clock  func() time.Time
	conns  map[net.Conn]bool
	max    int    // connections at once
	fault  string // what goes wrong at the moment
	fired  bool   // it has gone wrong since it was set
	odd    string // a statement the server did not understand
	served int
}

type pgRow struct {
	id   int
	ts   time.Time
	data []byte
}

func newFakePG(clock func() time.Time) *fakePG {
	s := &fakePG{clock: clock, conns: map[net.Conn]bool{}, max: 5}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.l = l
	s.port = l.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *fakePG) setFault(f string) { s.mu.Lock(); s.fault, s.fired = f, false; s.mu.Unlock() }

// hangUp is the end of the process that was connected.
func (s *fakePG) hangUp() {
	for {
		s.mu.Lock()
		for c := range s.conns {
			c.Close()
		}
		n := len(s.conns)
		s.mu.Unlock()
		if n == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

type pgErr struct{ code, msg string }

func (e *pgErr) Error() string { return e.code + " " + e.msg }

func msg(t byte, parts ...[]byte) []byte {
	b := bytes.Join(parts, nil)
	h := make([]byte, 5)
	h[0] = t
	binary.BigEndian.PutUint32(h[1:], uint32(len(b)+4))
	return append(h, b...)
}
func i16(n int) []byte   { return binary.BigEndian.AppendUint16(nil, uint16(n)) }
func i32(n int) []byte   { return binary.BigEndian.AppendUint32(nil, uint32(n)) }
func cs(t string) []byte { return append([]byte(t), 0) }
func errMsg(sev string, e *pgErr) []byte {
	return msg('E', []byte("S"), cs(sev), []byte("V"), cs(sev), []byte("C"), cs(e.code), []byte("M"), cs(e.msg), []byte{0})
}

type pgResult struct {
	cols  []string
	rows  [][]any
	tag   string
	empty bool
}

func (s *fakePG) serve(c net.Conn) {
	defer c.Close()
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	s.mu.Lock()
	f, n := s.fault, len(s.conns)
	s.conns[c] = true
	s.mu.Unlock()
	defer func() { s.mu.Lock(); delete(s.conns, c); s.mu.Unlock() }()
	if f == "refuse" {
		s.mu.Lock()
		s.fired = true
		s.mu.Unlock()
		return
	}
	for { // start-up
		h := make([]byte, 8)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		n, v := binary.BigEndian.Uint32(h), binary.BigEndian.Uint32(h[4:])
		io.CopyN(io.Discard, r, int64(n)-8)
		if v == 80877103 { // TLS?
			w.WriteByte('N')
			w.Flush()
			continue
		}
		if v>>16 != 3 {
			return
		}
		break
	}
	if f == "auth" {
		w.Write(errMsg("FATAL", &pgErr{"28P01", "password authentication failed"}))
		w.Flush()
		return
	}
	if n >= s.max {
		w.Write(errMsg("FATAL", &pgErr{"53300", "sorry, too many clients already"}))
		w.Flush()
		return
	}
	w.Write(msg('R', i32(0)))
	for _, p := range []string{"server_version", "14.5", "client_encoding", "UTF8", "DateStyle", "ISO, MDY", "TimeZone", "UTC", "standard_conforming_strings", "on"} {
		_ = p
	}
	for _, p := range [][2]string{{"server_version", "14.5"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"standard_conforming_strings", "on"}} {
		w.Write(msg('S', cs(p[0]), cs(p[1])))
	}
	w.Write(msg('K', i32(1), i32(2)))
	w.Write(msg('Z', []byte("I")))
	w.Flush()

	prepared := map[string]string{}
	var bound string
	var params [][]byte
	var resFmt []int
	failed := false
	status := byte('I')
	fail := func(e *pgErr) {
		w.Write(errMsg("ERROR", e))
		failed = true
		if status == 'T' {
			status = 'E'
		}
	}
	sendRows := func(res *pgResult, f []int) {
		for _, row := range res.rows {
			b := i16(len(row))
			for k, v := range row {
				x, isNull := encodePG(v, fmtOf(f, k))
				if isNull {
					b = append(b, i32(-1)...)
					continue
				}
				b = append(b, i32(len(x))...)
				b = append(b, x...)
			}
			w.Write(msg('D', b))
		}
	}
	desc := func(res *pgResult, f []int) {
		b := i16(len(res.cols))
		for k, col := range res.cols {
			b = append(b, cs(col)...)
			b = append(b, i32(0)...)
			b = append(b, i16(0)...)
			b = append(b, i32(oidOf(col))...)
			b = append(b, i16(-1)...)
			b = append(b, i32(-1)...)
			b = append(b, i16(fmtOf(f, k))...)
		}
		w.Write(msg('T', b))
	}
	for {
		h := make([]byte, 5)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		s.mu.Lock()
		s.served++
		s.mu.Unlock()
		str := func() string {
			i := bytes.IndexByte(body, 0)
			v := string(body[:i])
			body = body[i+1:]
			return v
		}
		n16 := func() int { v := int(int16(binary.BigEndian.Uint16(body))); body = body[2:]; return v }
		n32 := func() int { v := int(int32(binary.BigEndian.Uint32(body))); body = body[4:]; return v }
		switch h[0] {
		case 'X':
			return
		case 'Q':
			q := str()
			res, e, cut := s.exec(q, nil, &status)
			if cut {
				return
			}
			if e != nil {
				fail(e)
				failed = false
			} else if res.empty {
				w.Write(msg('I'))
			} else {
				if len(res.cols) > 0 {
					desc(res, nil)
					sendRows(res, nil)
				}
				w.Write(msg('C', cs(res.tag)))
			}
			w.Write(msg('Z', []byte{status}))
			w.Flush()
		case 'P':
			name := str()
			prepared[name] = str()
			if !failed {
				if e := s.denied(prepared[name], "prepare"); e != nil {
					fail(e)
				} else {
					w.Write(msg('1'))
				}
			}
		case 'D':
			kind := body[0]
			body = body[1:]
			name := str()
			if failed {
				break
			}
			q := bound
			if kind == 'S' {
				q = prepared[name]
				// the parameters are of the columns' types
				var o []byte
				np := 0
				for strings.Contains(q, fmt.Sprintf("$%d", np+1)) {
					np++
					o = append(o, i32(paramOID(q, np))...)
				}
				w.Write(msg('t', i16(np), o))
			}
			if cols := selectCols(q); cols != nil {
				desc(&pgResult{cols: cols}, resFmt)
			} else {
				w.Write(msg('n'))
			}
		case 'B':
			str()
			bound = prepared[str()]
			var pf []int
			for k := n16(); k > 0; k-- {
				pf = append(pf, n16())
			}
			params = nil
			np := n16()
			for k := 0; k < np; k++ {
				n := n32()
				if n < 0 {
					params = append(params, nil)
					continue
				}
				v := append([]byte{}, body[:n]...)
				body = body[n:]
				if fmtOf(pf, k) == 0 {
					v = decodePG(v, paramOID(bound, k+1))
				}
				params = append(params, v)
			}
			resFmt = nil
			for k := n16(); k > 0; k-- {
				resFmt = append(resFmt, n16())
			}
			if !failed {
				w.Write(msg('2'))
			}
		case 'E':
			if failed {
				break
			}
			res, e, cut := s.exec(bound, params, &status)
			if cut {
				return
			}
			if e != nil {
				fail(e)
				break
			}
			sendRows(res, resFmt)
			w.Write(msg('C', cs(res.tag)))
		case 'C':
			w.Write(msg('3'))
		case 'S':
			failed = false
			resFmt = nil
			w.Write(msg('Z', []byte{status}))
			w.Flush()
		case 'H':
			w.Flush()
		}
	}
}

func fmtOf(f []int, k int) int {
	switch len(f) {
	case 0:
		return 0
	case 1:
		return f[0]
	}
	return f[k]
}
func oidOf(col string) int {
	switch col {
	case "ts", "now":
		return 1114
	case "bytes":
		return 17
	case "ctid":
		return 27
	}
	return 20
}

// paramOID guesses the type of the n-th parameter of a statement from the
// column it goes to.
func paramOID(q string, n int) int {
	toks := lexSQL(q)
	for i, t := range toks {
		if t == "values" {
			var cols []string
			for j, u := range toks[:i] {
				if u == "(" {
					for _, v := range toks[j+1 : i] {
						if v != "," && v != ")" {
							cols = append(cols, v)
						}
					}
					break
				}
			}
			k := 0
			for _, v := range toks[i+1:] {
				if v == "," {
					k++
				}
				if v == fmt.Sprintf("$%d", n) {
					if k < len(cols) {
						return oidOf(cols[k])
					}
					return 17
				}
			}
		}
	}
	for i, t := range toks {
		if t == fmt.Sprintf("$%d", n) && i >= 2 {
			return oidOf(toks[i-2])
		}
	}
	return 25
}

func decodePG(v []byte, oid int) []byte {
	if oid == 17 && bytes.HasPrefix(v, []byte("\\x")) {
		if b, err := hex.DecodeString(string(v[2:])); err == nil {
			return b
		}
	}
	return v
}
func encodePG(v any, f int) ([]byte, bool) {
	switch x := v.(type) {
	case []byte:
		if f == 1 {
			return x, false
		}
		return []byte("\\x" + hex.EncodeToString(x)), false
	case time.Time:
		if f == 1 {
			return binary.BigEndian.AppendUint64(nil, uint64(x.Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC))/time.Microsecond)), false
		}
		return []byte(x.UTC().Format("2006-01-02 15:04:05.999999")), false
	case int:
		return []byte(strconv.Itoa(x)), false
	case string:
		return []byte(x), false
	}
	return nil, true
}

// lexSQL splits a statement into lower-case words, symbols and 'strings'.
func lexSQL(q string) (l []string) {
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			j := i + 1
			for j < len(q) && q[j] != '\'' {
				j++
			}
			l = append(l, "'"+q[i+1:j])
			i = j + 1
		case strings.ContainsRune("(),;<>=*", rune(c)):
			if i+1 < len(q) && (c == '<' || c == '>') && q[i+1] == '=' {
				l = append(l, q[i:i+2])
				i += 2
				break
			}
			l = append(l, string(c))
			i++
		default:
			j := i
			for j < len(q) && !strings.ContainsRune(" \n\t\r(),;<>=*'", rune(q[j])) {
				j++
			}
			l = append(l, strings.ToLower(strings.Trim(q[i:j], `"`)))
			i = j
		}
	}
	for len(l) > 0 && l[len(l)-1] == ";" {
		l = l[:len(l)-1]
	}
	return
}

func selectCols(q string) []string {
	t := lexSQL(q)
	if len(t) == 0 || t[0] != "select" {
		return nil
	}
	var cols []string
	for i := 1; i < len(t) && t[i] != "from"; i++ {
		switch t[i] {
		case ",":
		case "*":
			cols = append(cols, "ts", "bytes")
		case "(", ")":
		default:
			cols = append(cols, t[i])
		}
	}
	return cols
}

// denied tells whether the server is in the mood for a statement.
func (s *fakePG) denied(q, when string) *pgErr {
	s.mu.Lock()
	f := s.fault
	s.mu.Unlock()
	t := lexSQL(q)
	if len(t) > 0 && f == t[0] && when == "run" || len(t) > 0 && f == t[0]+"-prepare" && when == "prepare" {
		s.mu.Lock()
		s.fired = true
		s.mu.Unlock()
		return &pgErr{"53100", "could not extend file: No space left on device"}
	}
	return nil
}

func (s *fakePG) exec(q string, params [][]byte, status *byte) (*pgResult, *pgErr, bool) {
	t := lexSQL(q)
	if len(t) == 0 {
		return &pgResult{empty: true}, nil, false
	}
	if e := s.denied(q, "run"); e != nil {
		return nil, e, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fault == "cut-"+t[0] {
		s.fired = true
		return nil, nil, true
	}
	odd := func() (*pgResult, *pgErr, bool) {
		s.odd = q
		return nil, &pgErr{"42601", "syntax error"}, false
	}
	switch t[0] {
	case "create":
		s.table = true
		return &pgResult{tag: "CREATE TABLE"}, nil, false
	case "begin", "start":
		*status = 'T'
		return &pgResult{tag: "BEGIN"}, nil, false
	case "commit", "end", "rollback", "abort":
		*status = 'I'
		return &pgResult{tag: strings.ToUpper(t[0])}, nil, false
	case "set", "show", "vacuum", "analyze":
		return &pgResult{tag: strings.ToUpper(t[0])}, nil, false
	}
	if !s.table {
		return nil, &pgErr{"42P01", `relation "trakx" does not exist`}, false
	}
	switch t[0] {
	case "insert":
		p := &pgp{s: s, t: t, params: params}
		cols := []string{"ts", "bytes"}
		p.i = 3
		if p.at("(") {
			cols = nil
			for p.i++; p.i < len(t) && t[p.i] != ")"; p.i++ {
				if t[p.i] != "," {
					cols = append(cols, t[p.i])
				}
			}
			p.i++
		}
		if !p.eat("values") || !p.eat("(") {
			return odd()
		}
		row := pgRow{ts: s.clock()}
		for _, c := range cols {
			v, ok := p.value(nil)
			if !ok {
				return odd()
			}
			switch x := v.(type) {
			case []byte:
				if c == "bytes" {
					row.data = x
				} else if d, err := time.Parse("2006-01-02 15:04:05.999999999Z07:00:00", string(x)); err == nil {
					row.ts = d
				} else if d, err := time.Parse("2006-01-02 15:04:05.999999999Z07:00", string(x)); err == nil {
					row.ts = d
				} else if d, err := time.Parse("2006-01-02 15:04:05.999999999Z", string(x)); err == nil {
					row.ts = d
				} else {
					return odd()
				}
			case time.Time:
				row.ts = x
			default:
				return odd()
			}
			p.eat(",")
		}
		s.nextID++
		row.id = s.nextID
		s.rows = append(s.rows, row)
		if s.fault == "after-insert" {
			return nil, nil, true
		}
		return &pgResult{tag: "INSERT 0 1"}, nil, false
	case "select":
		p := &pgp{s: s, t: t, params: params, i: 1}
		rows, ok := p.rowsOf()
		if !ok {
			return odd()
		}
		cols := selectCols(q)
		if len(cols) == 1 && cols[0] == "count" {
			return &pgResult{cols: cols, rows: [][]any{{len(rows)}}, tag: "SELECT 1"}, nil, false
		}
		res := &pgResult{cols: cols, tag: fmt.Sprintf("SELECT %d", len(rows))}
		for _, r := range rows {
			var vs []any
			for _, c := range cols {
				v := r.col(c)
				if v == nil {
					return odd()
				}
				vs = append(vs, v)
			}
			res.rows = append(res.rows, vs)
		}
		return res, nil, false
	case "delete", "truncate":
		p := &pgp{s: s, t: t, params: params, i: 3}
		gone := map[int]bool{}
		if t[0] == "truncate" || p.i >= len(t) {
			for _, r := range s.rows {
				gone[r.id] = true
			}
		} else {
			if !p.eat("where") {
				return odd()
			}
			pred, ok := p.pred()
			if !ok {
				return odd()
			}
			for _, r := range s.rows {
				if pred(r) {
					gone[r.id] = true
				}
			}
		}
		var keep []pgRow
		for _, r := range s.rows {
			if !gone[r.id] {
				keep = append(keep, r)
			}
		}
		s.rows = keep
		return &pgResult{tag: fmt.Sprintf("DELETE %d", len(gone))}, nil, false
	}
	return odd()
}

func (r pgRow) col(c string) any {
	switch c {
	case "ts":
		return r.ts
	case "bytes":
		return r.data
	case "ctid", "id":
		return r.id
	}
	return nil
}

// pgp reads the clauses of a statement.
type pgp struct {
	s      *fakePG
	t      []string
	i      int
	params [][]byte
}

func (p *pgp) at(w string) bool { return p.i < len(p.t) && p.t[p.i] == w }
func (p *pgp) eat(w string) bool {
	if p.at(w) {
		p.i++
		return true
	}
	return false
}

// value: a parameter, a column of r, now(), now() - interval '..', a number.
func (p *pgp) value(r *pgRow) (any, bool) {
	if p.i >= len(p.t) {
		return nil, false
	}
	w := p.t[p.i]
	p.i++
	var v any
	switch {
	case strings.HasPrefix(w, "$"):
		n, err := strconv.Atoi(strings.TrimRight(w[1:], ":abcdefghijklmnopqrstuvwxyz"))
		if err != nil || n < 1 || n > len(p.params) {
			return nil, false
		}
		v = p.params[n-1]
	case w == "now" || w == "current_timestamp" || w == "clock_timestamp" || w == "localtimestamp":
		if p.eat("(") {
			p.eat(")")
		}
		v = p.s.clock()
	case w == "default":
		v = p.s.clock()
	case w == "(":
		x, ok := p.value(r)
		if !ok || !p.eat(")") {
			return nil, false
		}
		v = x
	default:
		if n, err := strconv.Atoi(w); err == nil {
			v = n
		} else if r != nil {
			v = r.col(w)
		}
	}
	if d, ok := v.(time.Time); ok && (p.at("-") || p.at("+")) && p.i+2 < len(p.t) && p.t[p.i+1] == "interval" {
		sign := time.Duration(1)
		if p.at("-") {
			sign = -1
		}
		iv, ok := interval(p.t[p.i+2])
		if !ok {
			return nil, false
		}
		p.i += 3
		v = d.Add(sign * iv)
	}
	return v, v != nil
}

func interval(s string) (time.Duration, bool) {
	f := strings.Fields(strings.TrimPrefix(s, "'"))
	if len(f) != 2 {
		return 0, false
	}
	n, err := strconv.Atoi(f[0])
	u, ok := map[string]time.Duration{"second": time.Second, "minute": time.Minute, "hour": time.Hour, "day": 24 * time.Hour, "week": 168 * time.Hour}[strings.TrimSuffix(f[1], "s")]
	return time.Duration(n) * u, err == nil && ok
}

// rowsOf reads `cols FROM trakx [WHERE ..] [ORDER BY ..] [LIMIT ..] [OFFSET ..]`.
func (p *pgp) rowsOf() ([]pgRow, bool) {
	for p.i < len(p.t) && p.t[p.i] != "from" {
		p.i++
	}
	if !p.eat("from") {
		return nil, false
	}
	p.i++ // the table
	rows := append([]pgRow{}, p.s.rows...)
	if p.eat("where") {
		pred, ok := p.pred()
		if !ok {
			return nil, false
		}
		var k []pgRow
		for _, r := range rows {
			if pred(r) {
				k = append(k, r)
			}
		}
		rows = k
	}
	if p.eat("order") {
		p.eat("by")
		type key struct {
			col  string
			desc bool
		}
		var keys []key
		for p.i < len(p.t) {
			k := key{col: p.t[p.i]}
			p.i++
			if p.eat("desc") {
				k.desc = true
			} else {
				p.eat("asc")
			}
			if p.eat("nulls") {
				p.i++
			}
			keys = append(keys, k)
			if !p.eat(",") {
				break
			}
		}
		sort.SliceStable(rows, func(i, j int) bool {
			for _, k := range keys {
				c := 0
				switch k.col {
				case "ts":
					c = rows[i].ts.Compare(rows[j].ts)
				default:
					c = rows[i].id - rows[j].id
				}
				if k.desc {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	off, lim := 0, len(rows)
	for p.i < len(p.t) && (p.at("limit") || p.at("offset")) {
		w := p.t[p.i]
		p.i++
		v, ok := p.value(nil)
		if !ok {
			return nil, false
		}
		n, isInt := v.(int)
		if b, isB := v.([]byte); isB {
			n, _ = strconv.Atoi(string(b))
			isInt = true
		}
		if !isInt {
			return nil, false
		}
		if w == "limit" {
			lim = n
		} else {
			off = n
		}
	}
	off = min(off, len(rows))
	rows = rows[off:]
	if lim < len(rows) {
		rows = rows[:lim]
	}
	return rows, true
}

// pred: `a < b`, `a [NOT] IN (SELECT ..)`, joined by AND.
func (p *pgp) pred() (func(pgRow) bool, bool) {
	var all []func(pgRow) bool
	for {
		start := p.i
		dummy := pgRow{ts: p.s.clock(), data: []byte{}}
		if _, ok := p.value(&dummy); !ok {
			return nil, false
		}
		not := p.eat("not")
		switch {
		case p.eat("in"):
			if !p.eat("(") {
				return nil, false
			}
			rows, ok := p.rowsOf()
			if !ok || !p.eat(")") {
				return nil, false
			}
			set := map[int]bool{}
			for _, r := range rows {
				set[r.id] = true
			}
			all = append(all, func(r pgRow) bool { return set[r.id] != not })
		default:
			if p.i >= len(p.t) {
				return nil, false
			}
			op := p.t[p.i]
			p.i++
			if _, ok := p.value(&dummy); !ok {
				return nil, false
			}
			q := *p
			all = append(all, func(r pgRow) bool {
				x := q
				x.i = start
				a, _ := x.value(&r)
				x.i++
				b, _ := x.value(&r)
				c := 0
				switch v := a.(type) {
				case time.Time:
					w, _ := b.(time.Time)
					c = v.Compare(w)
				case int:
					w, _ := b.(int)
					c = v - w
				}
				switch op {
				case "<":
					return c < 0
				case "<=":
					return c <= 0
				case ">":
					return c > 0
				case ">=":
					return c >= 0
				}
				return c == 0
			})
		}
		if !p.eat("and") {
			break
		}
	}
	return func(r pgRow) bool {
		for _, f := range all {
			if !f(r) {
				return false
			}
		}
		return true
	}, true
}

func (s *fakePG) hasFired() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.fired }
