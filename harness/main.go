package main

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

func main() {
	var (
		mode       = flag.String("mode", "hist", "hist, fault, conc, script")
		voc        = flag.String("vocab", "", "vocabulary")
		prof       = flag.String("prof", "ALL", "profile")
		seed       = flag.Int64("seed", 1, "seed")
		first      = flag.Int("first", 0, "first trace")
		n          = flag.Int("n", 10, "number of traces")
		ops        = flag.Int("ops", 30, "operations per trace")
		out        = flag.String("out", "", "trace file")
		prog       = flag.String("progress", "", "file naming the operation under way")
		in         = flag.String("in", "", "script file")
		scratchDir = flag.String("scratch", "", "scratch directory")
	)
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	scratch = *scratchDir
	if *voc != "" {
		loadVocab(*voc)
	}
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	bw := bufio.NewWriterSize(f, 1<<20)
	emit := func(s trace) {
		_, _ = bw.WriteString(s.text)
		_ = bw.WriteByte('\n')
		if err := bw.Flush(); err != nil {
			panic(err)
		}
		if s.stop { // the goroutine of a call that hangs cannot be ended
			os.Exit(3)
		}
	}
	var pf *os.File
	if *prog != "" {
		pf, err = os.Create(*prog)
		if err != nil {
			panic(err)
		}
	}
	id := ""
	cur := func(s string) {
		if pf != nil {
			b := []byte(fmt.Sprintf("%-200s\n", id+" "+s))
			_, _ = pf.WriteAt(b, 0)
		}
	}
	switch *mode {
	case "hist":
		p := profs[*prof]
		if p == nil {
			panic("no profile " + *prof)
		}
		for i := *first; i < *first+*n; i++ {
			r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
			id = fmt.Sprintf("%s/%d/%d", *prof, *seed, i)
			k := 1 + r.Intn(*ops)
			w := history(r, p, k, cur)
			emit(w.finish(id))
		}
	case "fault":
		faults(*seed, *first, *n, *ops, emit, func(s string) { id = s }, cur)
	case "conc":
		opTimeout = 120 * time.Second
		concurrency(*seed, *first, *n, *ops, emit, func(s string) { id = s }, cur)
	case "script":
		scripts(*in, *seed, *first, *n, emit, func(s string) { id = s }, cur)
	default:
		panic("mode " + *mode)
	}
	cur("done")
}
