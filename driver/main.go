// Command verifdriver executes cases on the real code of github.com/qiniu/text and records
// what a user can observe. It never judges: the TLA+ specification does.
//
//	verifdriver gen SUITE -seed S -n N [-profile P]   cases to stdout, one JSON object per line
//	verifdriver run SUITE < cases                     cases with their observations to stdout
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

type M = map[string]interface{}

type suite struct {
	gen func(r *rand.Rand, n int, profile string, emit func(interface{}))
	run func(raw []byte) (obs interface{}, keep bool)
	pre func(raw []byte) M // what the specification needs about a case that hangs or kills the process
}

var suites = map[string]suite{}

var caseTimeout = 10 * time.Second

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verifdriver gen|run SUITE")
		os.Exit(2)
	}
	cmd, name := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	profile := fs.String("profile", "", "")
	timeout := fs.Duration("timeout", caseTimeout, "")
	pre := fs.Bool("pre", false, "")
	fs.Parse(os.Args[3:])
	caseTimeout = *timeout
	s, ok := suites[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown suite", name)
		os.Exit(2)
	}
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	if *pre {
		run := s.pre
		s.run = func(raw []byte) (interface{}, bool) {
			if run == nil {
				return M{}, true
			}
			return run(raw), true
		}
	}
	switch cmd {
	case "gen":
		id := 0
		s.gen(rand.New(rand.NewSource(*seed)), *n, *profile, func(c interface{}) {
			id++
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			var m M
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			d.Decode(&m)
			m["id"] = id
			enc.Encode(m)
		})
	case "run":
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			line, err := in.ReadBytes('\n')
			if len(bytes.TrimSpace(line)) > 0 {
				runOne(s, line, enc, out)
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				panic(err)
			}
		}
	}
}

// runOne runs one case under a watchdog. A hang ends the process with exit code 3 after the
// observation {"hang":true} has been written; the caller goes on with the next case.
func runOne(s suite, line []byte, enc *json.Encoder, out *bufio.Writer) {
	var m M
	d := json.NewDecoder(bytes.NewReader(line))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	fmt.Fprintf(out, "{\"start\":%v}\n", m["id"])
	out.Flush()
	type res struct {
		obs  interface{}
		keep bool
	}
	ch := make(chan res, 1)
	go func() {
		obs, keep := s.run(line)
		ch <- res{obs, keep}
	}()
	select {
	case r := <-ch:
		if !r.keep {
			fmt.Fprintf(out, "{\"skip\":%v}\n", m["id"])
		} else {
			m["obs"] = r.obs
			enc.Encode(m)
		}
		out.Flush()
	case <-time.After(caseTimeout):
		m["obs"] = M{"r": "hang"}
		enc.Encode(m)
		out.Flush()
		os.Exit(3)
	}
}

func jget(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(err)
	}
}
