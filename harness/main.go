//go:build go1.22

// driver runs the tracker's real code along given or random stimuli and records
// what it does. It judges nothing; the recorded traces are validated against
// the specification.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/signal"
	"strings"
	"syscall"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

// mindful makes the processes that are started from here mind the signals
// that this one was started to ignore, as a shell's background job is.
func mindful() {
	c := make(chan os.Signal, 1)
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGUSR1} {
		if signal.Ignored(s) {
			signal.Notify(c, s)
		}
	}
}

func main() {
	if os.Getenv("VERIF_STUB") != "" {
		stub()
		return
	}
	mindful()
	args := map[string]string{}
	if len(os.Args) < 2 {
		fatalf("no command")
	}
	for _, a := range os.Args[2:] {
		k, v, _ := strings.Cut(strings.TrimLeft(a, "-"), "=")
		args[k] = v
	}
	switch os.Args[1] {
	case "db":
		cmdDB(args)
	case "conc":
		cmdConc(args)
	case "proc":
		cmdProc(args)
	case "ctl":
		cmdCtl(args)
	case "cfg":
		cmdCfg(args)
	case "pg":
		cmdPG(args)
	case "lib":
		cmdLib(args)
	case "cfgdump":
		cmdCfgdump()
		return
	case "srv":
		cmdSrv(args)
	default:
		fatalf("unknown command %s", os.Args[1])
	}
	fmt.Println("driver done")
}
