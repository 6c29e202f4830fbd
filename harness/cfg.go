//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
)

// setting is one of the tracker's settings; values travel in a canonical form:
// text as it is, numbers in decimal, durations in nanoseconds.
type setting struct {
	key  string // as in the file, dotted
	kind string
	get  func(c *config.Configuration) any
}

var settings = []setting{
	{"loglevel", "level", func(c *config.Configuration) any { return string(c.LogLevel) }},
	{"expvarinterval", "dur", func(c *config.Configuration) any { return c.ExpvarInterval }},
	{"debug.pprof", "int", func(c *config.Configuration) any { return c.Debug.Pprof }},
	{"announce.base", "dur", func(c *config.Configuration) any { return c.Announce.Base }},
	{"announce.fuzz", "dur", func(c *config.Configuration) any { return c.Announce.Fuzz }},
	{"http.mode", "mode", func(c *config.Configuration) any { return c.HTTP.Mode }},
	{"http.ip", "ip", func(c *config.Configuration) any { return c.HTTP.IP }},
	{"http.port", "int", func(c *config.Configuration) any { return c.HTTP.Port }},
	{"http.timeout.read", "dur", func(c *config.Configuration) any { return c.HTTP.Timeout.Read }},
	{"http.timeout.write", "dur", func(c *config.Configuration) any { return c.HTTP.Timeout.Write }},
	{"http.threads", "int", func(c *config.Configuration) any { return c.HTTP.Threads }},
	{"udp.enabled", "bool", func(c *config.Configuration) any { return c.UDP.Enabled }},
	{"udp.ip", "ip", func(c *config.Configuration) any { return c.UDP.IP }},
	{"udp.port", "int", func(c *config.Configuration) any { return c.UDP.Port }},
	{"udp.threads", "int", func(c *config.Configuration) any { return c.UDP.Threads }},
	{"udp.conndb.validate", "bool", func(c *config.Configuration) any { return c.UDP.ConnDB.Validate }},
	{"udp.conndb.size", "int", func(c *config.Configuration) any { return c.UDP.ConnDB.Size }},
	{"udp.conndb.trim", "dur", func(c *config.Configuration) any { return c.UDP.ConnDB.Trim }},
	{"udp.conndb.expiry", "dur", func(c *config.Configuration) any { return c.UDP.ConnDB.Expiry }},
	{"numwant.default", "int", func(c *config.Configuration) any { return c.Numwant.Default }},
	{"numwant.limit", "int", func(c *config.Configuration) any { return c.Numwant.Limit }},
	{"db.type", "word", func(c *config.Configuration) any { return c.DB.Type }},
	{"db.backup.frequency", "dur", func(c *config.Configuration) any { return c.DB.Backup.Frequency }},
	{"db.backup.type", "word", func(c *config.Configuration) any { return c.DB.Backup.Type }},
	{"db.backup.path", "bpath", func(c *config.Configuration) any { return c.DB.Backup.Path }},
	{"db.trim", "dur", func(c *config.Configuration) any { return c.DB.Trim }},
	{"db.expiry", "dur", func(c *config.Configuration) any { return c.DB.Expiry }},
	{"path.log", "path", func(c *config.Configuration) any { return c.Path.Log }},
	{"path.pid", "path", func(c *config.Configuration) any { return c.Path.Pid }},
}

func canon(v any) string {
	if d, ok := v.(time.Duration); ok {
		return strconv.FormatInt(int64(d), 10)
	}
	return fmt.Sprint(v)
}

// cmdCfgdump prints what this process's configuration came to.
func cmdCfgdump() {
	o := map[string]string{}
	c := config.Config
	if c != nil && c.Loaded() {
		for _, s := range settings {
			o[s.key] = canon(s.get(c))
		}
	}
	b, _ := json.Marshal(o)
	fmt.Printf("\nCFG %s\n", b)
}

// val is a value as it is written down and what it means.
type val struct{ text, canon string }

func genVal(r *rand.Rand, kind string) val {
	same := func(s string) val { return val{s, s} }
	pick := func(l ...string) val { return same(l[r.Intn(len(l))]) }
	switch kind {
	case "level":
		return pick("debug", "info", "warn", "error", "fatal", "Error", "WARN")
	case "mode":
		return pick("enabled", "info", "disabled", "Enabled", "INFO")
	case "ip":
		return pick("127.0.0.1", "10.1.2.3", "0.0.0.0", "::1")
	case "word":
		return pick("gomap", "none", "file", "pg", "other")
	case "bool":
		return pick("true", "false")
	case "int":
		return same(strconv.Itoa(1 + r.Intn(60000)))
	case "bpath":
		return pick("/tmp/x/backup.db", "relative.db", "ENV:VERIF_A", "ENV:VERIF_B", "ENV:VERIF_UNSET", "postgres://u@h/db?sslmode=disable", "~/x.db", "env:VERIF_A")
	case "path":
		return pick("~/a/trakx.log", "/var/x.pid", "~/.cache/trakx/y", "rel/z", "~")
	case "dur":
		n := time.Duration(r.Intn(100000)) * time.Second
		if r.Intn(3) == 0 {
			n = time.Duration(1+r.Intn(500)) * time.Millisecond
		}
		return val{n.String(), strconv.FormatInt(int64(n), 10)}
	}
	panic(kind)
}

// yaml writes a file of the given settings.
func yaml(vals map[string]val) string {
	type node struct {
		kids  map[string]*node
		order []string
		v     *val
	}
	root := &node{kids: map[string]*node{}}
	for _, s := range settings {
		v, ok := vals[s.key]
		if !ok {
			continue
		}
		n := root
		for _, k := range strings.Split(s.key, ".") {
			if n.kids[k] == nil {
				n.kids[k] = &node{kids: map[string]*node{}}
				n.order = append(n.order, k)
			}
			n = n.kids[k]
		}
		n.v = &v
	}
	var o strings.Builder
	var walk func(n *node, ind string)
	walk = func(n *node, ind string) {
		for _, k := range n.order {
			c := n.kids[k]
			if c.v != nil {
				t := c.v.text
				if _, err := strconv.Atoi(t); err != nil && t != "true" && t != "false" {
					t = strconv.Quote(t)
				}
				fmt.Fprintf(&o, "%s%s: %s\n", ind, k, t)
			} else {
				fmt.Fprintf(&o, "%s%s:\n", ind, k)
				walk(c, ind+"  ")
			}
		}
	}
	walk(root, "")
	return o.String()
}

// defaults reads the settings of the embedded file.
func defaults(path string) map[string]val {
	b, err := os.ReadFile(path)
	must(err)
	type lv struct {
		ind int
		key string
	}
	var stack []lv
	m := map[string]val{}
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " "))
		for len(stack) > 0 && stack[len(stack)-1].ind >= ind {
			stack = stack[:len(stack)-1]
		}
		k, v, _ := strings.Cut(t, ":")
		v = strings.Trim(strings.TrimSpace(v), `"`)
		full := k
		if len(stack) > 0 {
			full = stack[len(stack)-1].key + "." + k
		}
		if v == "" {
			stack = append(stack, lv{ind, full})
			continue
		}
		for _, s := range settings {
			if s.key == full {
				c := v
				if s.kind == "dur" {
					d, err := time.ParseDuration(v)
					must(err)
					c = strconv.FormatInt(int64(d), 10)
				}
				if v == "null" {
					c = ""
				}
				m[full] = val{v, c}
			}
		}
	}
	return m
}

func canonRec(m map[string]val) M {
	o := M{}
	for k, v := range m {
		o[k] = ints([]byte(v.canon))
	}
	return o
}

func fileSha(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "-"
	}
	return shaOf(b)
}

func cmdCfg(args map[string]string) {
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	n, _ := strconv.Atoi(args["n"])
	dir := args["dir"]
	must(os.MkdirAll(dir, 0o755))
	dir, err := filepath.Abs(dir)
	must(err)
	r := rand.New(rand.NewSource(seed))
	t := newTrace(args["out"])
	emb := filepath.Join(args["repo"], "config/embedded/trakx.yaml")
	def := defaults(emb)
	zero := M{}
	kinds := M{}
	for _, s := range settings {
		z := ""
		switch s.kind {
		case "int", "dur":
			z = "0"
		case "bool":
			z = "false"
		}
		zero[s.key] = ints([]byte(z))
		kinds[s.key] = s.kind
		if _, ok := def[s.key]; !ok {
			fatalf("no default for %s", s.key)
		}
	}
	t.add(M{"e": "dict", "kinds": kinds, "zero": zero, "defaults": canonRec(def), "defsha": fileSha(emb)})
	self, err := os.Executable()
	must(err)
	some := func(p float64) map[string]val {
		m := map[string]val{}
		for _, s := range settings {
			if r.Float64() < p {
				m[s.key] = genVal(r, s.kind)
			}
		}
		return m
	}
	// one setting at a time first, then any mixture
	for i := 0; i < n+4*len(settings); i++ {
		home, cwd := filepath.Join(dir, "home"), filepath.Join(dir, "cwd")
		must(os.RemoveAll(home))
		must(os.RemoveAll(cwd))
		must(os.MkdirAll(cwd, 0o755))
		must(os.MkdirAll(home, 0o755))
		var env, inCwd, inHome map[string]val
		hasCwd, hasHome := false, false
		if i < 4*len(settings) {
			k := settings[i/4]
			one := map[string]val{k.key: genVal(r, k.kind)}
			full := some(1)
			switch i % 4 {
			case 0:
				env = one
			case 1:
				inCwd, inHome, hasCwd, hasHome = full, some(1), true, true
				inCwd[k.key] = one[k.key]
			case 2:
				inHome, hasHome = full, true
				inHome[k.key] = one[k.key]
			case 3:
				env, inCwd, inHome, hasCwd, hasHome = one, full, some(1), true, true
			}
		} else {
			env = some([]float64{0, 0.1, 0.5, 1}[r.Intn(4)])
			if hasCwd = r.Intn(2) == 0; hasCwd {
				inCwd = some([]float64{1, 1, 0.7}[r.Intn(3)])
			}
			if hasHome = r.Intn(3) > 0; hasHome {
				inHome = some([]float64{1, 1, 0.7}[r.Intn(3)])
			}
		}
		hf, cf := filepath.Join(home, ".config/trakx/trakx.yaml"), filepath.Join(cwd, "trakx.yaml")
		if hasHome {
			must(os.MkdirAll(filepath.Dir(hf), 0o755))
			must(os.WriteFile(hf, []byte("# mine\n"+yaml(inHome)), 0o644))
		} else if r.Intn(2) == 0 {
			must(os.MkdirAll(filepath.Dir(hf), 0o755))
		}
		if hasCwd {
			must(os.WriteFile(cf, []byte(yaml(inCwd)), 0o644))
		}
		e := []string{"HOME=" + home, "PATH=/usr/bin:/bin", "VERIF_A=/some/where.db", "VERIF_B=ENV:VERIF_A"}
		vars := M{"VERIF_A": ints([]byte("/some/where.db")), "VERIF_B": ints([]byte("ENV:VERIF_A"))}
		for k, v := range env {
			e = append(e, "TRAKX_"+strings.ToUpper(strings.ReplaceAll(k, ".", "_"))+"="+v.text)
		}
		port := ""
		if r.Intn(4) == 0 {
			port = strconv.Itoa([]int{r.Intn(65536), 0, 1, 80}[r.Intn(4)])
			e = append(e, "PORT="+port)
		}
		hs, cs := fileSha(hf), fileSha(cf)
		cmd := exec.Command(self, "cfgdump")
		cmd.Env, cmd.Dir = e, cwd
		out, err := cmd.CombinedOutput()
		_, js, ok := strings.Cut(string(out), "\nCFG ")
		if !ok {
			// the configuration's own code ended the process
			t.add(M{"e": "load", "ok": false, "out": string(out), "err": fmt.Sprint(err)})
			continue
		}
		res := map[string]string{}
		must(json.Unmarshal([]byte(strings.SplitN(js, "\n", 2)[0]), &res))
		rm := M{}
		for k, v := range res {
			rm[k] = ints([]byte(v))
		}
		t.add(M{"e": "load", "ok": len(res) > 0, "env": canonRec(env), "hascwd": hasCwd, "cwd": canonRec(inCwd), "hashome": hasHome, "home": canonRec(inHome),
			"homedir": ints([]byte(home)), "port": ints([]byte(port)), "vars": vars, "result": rm,
			"homesha": hs, "homeshaAfter": fileSha(hf), "cwdsha": cs, "cwdshaAfter": fileSha(cf)})
	}
	t.close()
	fmt.Printf("events=%d\n", t.n)
}
