package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

// Ev is one trace event; keys are those the trace specification reads.
type Ev = map[string]interface{}

// Log collects the events of one scenario in the order they happen.
type Log struct {
	mu  sync.Mutex
	evs []Ev
	end bool
}

// Add appends an event unless the log has been closed.
func (l *Log) Add(e Ev) {
	l.mu.Lock()
	if !l.end {
		l.evs = append(l.evs, e)
	}
	l.mu.Unlock()
}

// Take closes the log and returns its events.
func (l *Log) Take() []Ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.end = true
	return l.evs
}

// readLines decodes one JSON value per line.
func readLines(path string, each func(raw []byte)) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			each(append([]byte(nil), sc.Bytes()...))
		}
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
}

func writeLines(path string, lines []Ev) {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for _, l := range lines {
		if err := enc.Encode(l); err != nil {
			fatal(err)
		}
	}
	if err := w.Flush(); err != nil {
		fatal(err)
	}
	if err := f.Close(); err != nil {
		fatal(err)
	}
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"driver:"}, args...)...)
	os.Exit(3)
}
