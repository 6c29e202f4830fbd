//go:build go1.22

package main

import (
	"errors"
	"strconv"
)

// bdecode parses one bencoded value: int64, string, []any or []kv (order and
// duplicate keys preserved). It returns the rest of the input.

type kv struct {
	k string
	v any
}

var errBenc = errors.New("malformed bencoding")

func bdecode(b string) (any, string, error) {
	if b == "" {
		return nil, b, errBenc
	}
	switch c := b[0]; {
	case c == 'i':
		for i := 1; i < len(b); i++ {
			if b[i] == 'e' {
				n, err := strconv.ParseInt(b[1:i], 10, 64)
				if err != nil || strconv.FormatInt(n, 10) != b[1:i] {
					return nil, b, errBenc
				}
				return n, b[i+1:], nil
			}
		}
		return nil, b, errBenc
	case c >= '0' && c <= '9':
		for i := 1; i < len(b); i++ {
			if b[i] == ':' {
				n, err := strconv.Atoi(b[:i])
				if err != nil || n > len(b)-i-1 || strconv.Itoa(n) != b[:i] {
					return nil, b, errBenc
				}
				return b[i+1 : i+1+n], b[i+1+n:], nil
			}
		}
		return nil, b, errBenc
	case c == 'l':
		l := []any{}
		b = b[1:]
		for len(b) > 0 && b[0] != 'e' {
			v, rest, err := bdecode(b)
			if err != nil {
				return nil, b, err
			}
			l = append(l, v)
			b = rest
		}
		if b == "" {
			return nil, b, errBenc
		}
		return l, b[1:], nil
	case c == 'd':
		d := []kv{}
		b = b[1:]
		for len(b) > 0 && b[0] != 'e' {
			k, rest, err := bdecode(b)
			if err != nil {
				return nil, b, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, b, errBenc
			}
			v, rest, err := bdecode(rest)
			if err != nil {
				return nil, b, err
			}
			d = append(d, kv{ks, v})
			b = rest
		}
		if b == "" {
			return nil, b, errBenc
		}
		return d, b[1:], nil
	}
	return nil, b, errBenc
}

// bdict decodes s as one dictionary and nothing else.
func bdict(s string) ([]kv, bool) {
	v, rest, err := bdecode(s)
	d, ok := v.([]kv)
	return d, err == nil && ok && rest == ""
}

func get(d []kv, k string) (any, bool) {
	for _, e := range d {
		if e.k == k {
			return e.v, true
		}
	}
	return nil, false
}
