package main

import (
	"flag"
	"fmt"
	"github.com/mindstand/go-bolt/log"
	"io"
	stdlog "log"
	"os"
	"runtime"
	"sync"
	"time"
)

// budget bounds the time in which scenarios are started: what was seen by then is judged.
var budget = time.Hour

var began = time.Now()

// parallel runs n jobs on a number of workers, keeping the results in order.
func parallel(n, workers int, job func(i int) []Ev) []Ev {
	out := make([][]Ev, n)
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if hangs.Load() < enoughHangs && slow.Load() < enoughSlow && time.Since(began) < budget {
					out[i] = job(i)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	var all []Ev
	for _, o := range out {
		all = append(all, o...)
	}
	return all
}

// logged says that the driver logs all it can.
var logged bool

func main() {
	seed := flag.Int64("seed", 1, "")
	in := flag.String("in", "", "scenarios, one JSON object per line")
	outp := flag.String("out", "", "trace, one JSON object per line")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	flag.DurationVar(&budget, "budget", budget, "start no scenario after this time")
	logs := flag.String("log", "", "what the driver logs")
	flag.Parse()
	if *logs != "" {
		logged = true
		for _, l := range []*stdlog.Logger{log.ErrorLog, log.InfoLog, log.TraceLog, log.TraceBytesLog} {
			l.SetOutput(io.Discard)
		}
		log.SetLevel(*logs)
	}
	suite := flag.Arg(0)
	if *outp == "" || suite == "" {
		fmt.Fprintln(os.Stderr, "usage: driver -in F -out F suite")
		os.Exit(3)
	}
	if suite == "codec-child" {
		codecChild()
		return
	}
	var raws [][]byte
	if *in != "" {
		readLines(*in, func(raw []byte) { raws = append(raws, raw) })
	}
	var evs []Ev
	switch suite {
	case "session":
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &sessScen{}
			decodeScen(raws[i], sc)
			return runSession(sc, *seed)
		})
	case "init":
		certs()
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &initScen{}
			decodeScen(raws[i], sc)
			return runInit(sc, *seed)
		})
	case "shared":
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &sharedScen{}
			decodeScen(raws[i], sc)
			return runShared(sc, *seed)
		})
	case "pool":
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &poolScen{}
			decodeScen(raws[i], sc)
			return runPool(sc, *seed)
		})
	case "routing":
		certs()
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &routeScen{}
			decodeScen(raws[i], sc)
			return runRouting(sc, *seed)
		})
	case "config":
		certs()
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &confScen{}
			decodeScen(raws[i], sc)
			return runConfig(sc, *seed)
		})
	case "summary":
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &sumScen{}
			decodeScen(raws[i], sc)
			return runSummary(sc, *seed)
		})
	case "messages":
		evs = parallel(len(raws), *workers, func(i int) []Ev {
			sc := &msgScen{}
			decodeScen(raws[i], sc)
			return runMessages(sc, *seed)
		})
	case "codec":
		evs = runCodecs(raws, *workers)
	default:
		fatal("unknown suite", suite)
	}
	writeLines(*outp, evs)
}
