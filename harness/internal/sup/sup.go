// Package sup runs cases against the code under test in child processes. A case that crashes the
// process, or does not end, is found through the journal the child keeps, confirmed alone in a
// fresh process, and reported; the other cases go on.
package sup

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is a deviation of the code from what a case expects.
type Finding struct {
	Prop   string `json:"prop"`   // the property it breaks
	Detail string `json:"detail"` // what was expected and seen
}

// Outcome of a case.
type Outcome struct {
	Findings []Finding `json:"findings,omitempty"`
	Skip     bool      `json:"skip,omitempty"` // outside the domain
	Trivial  bool      `json:"trivial,omitempty"`
	Key      string    `json:"key,omitempty"`    // identifies the behaviour seen, for counting
	Record   any       `json:"record,omitempty"` // a recorded run, for trace validation
}

// Handler runs one case. It may panic.
type Handler func(c json.RawMessage) Outcome

type result struct {
	Idx     int             `json:"idx"`
	Case    json.RawMessage `json:"case"`
	Outcome Outcome         `json:"outcome"`
}

// Summary is what a run covered.
type Summary struct {
	Cases    int            `json:"cases"`
	Nontriv  int            `json:"nontrivial"`
	Distinct int            `json:"distinct"`
	Skipped  int            `json:"skipped"`
	Findings int            `json:"findings"`
	ByProp   map[string]int `json:"by_prop"`
}

const childEnv = "VH_CHILD"

var (
	caseTimeout    = 10 * time.Second
	confirmTimeout = 60 * time.Second
)

// runCase runs the handler on one case, turning panics into findings.
func runCase(h Handler, c json.RawMessage) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			out = Outcome{Findings: []Finding{{Prop: "panic", Detail: fmt.Sprintf("panic: %v\n%s", r, st)}}}
		}
	}()
	return h(c)
}

func child(h Handler) {
	debug.SetMaxStack(1 << 30)
	go func() { // memory guard
		for {
			time.Sleep(100 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 2<<30 {
				fmt.Fprintln(os.Stderr, "memory guard: heap over 2 GiB")
				os.Exit(7)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // whatever the code under test prints
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		sp := strings.IndexByte(line, ' ')
		idx, raw := line[:sp], strings.TrimSuffix(line[sp+1:], "\n")
		fmt.Fprintf(out, "S %s\n", idx)
		o := runCase(h, json.RawMessage(raw))
		b, _ := json.Marshal(o)
		fmt.Fprintf(out, "R %s %s\n", idx, b)
	}
}

type shardCase struct {
	idx int
	raw string
}

// fatal counts confirmed crashes, a hang counts for many: when there are enough, the rest is not run.
var fatal atomic.Int32

const maxFatal = 20

// runShard feeds cases to children; returns through emit.
func runShard(args []string, cases []shardCase, emit func(shardCase, Outcome), timeout time.Duration) {
	for len(cases) > 0 && fatal.Load() < maxFatal {
		done, why := runChild(args, cases, emit, timeout)
		cases = cases[done:]
		if why == "" || len(cases) == 0 {
			continue
		}
		culprit := cases[0]
		cases = cases[1:]
		if timeout >= confirmTimeout { // already alone
			emit(culprit, Outcome{Findings: []Finding{{Prop: "panic", Detail: why}}})
			if fatal.Add(1); strings.HasPrefix(why, "did not end") {
				fatal.Add(maxFatal)
			}
			continue
		}
		runShard(args, []shardCase{culprit}, emit, confirmTimeout)
	}
}

// runChild returns the number of cases completed and, when the child ended early, why.
func runChild(args []string, cases []shardCase, emit func(shardCase, Outcome), timeout time.Duration) (int, string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), childEnv+"=1", "GOMAXPROCS=2", "GOTRACEBACK=single")
	stdin, _ := cmd.StdinPipe()
	stdout, _ := cmd.StdoutPipe()
	var stderr tail
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start child:", err)
		os.Exit(2)
	}
	go func() {
		w := bufio.NewWriterSize(stdin, 1<<20)
		for _, c := range cases {
			if _, err := fmt.Fprintf(w, "%d %s\n", c.idx, c.raw); err != nil {
				return
			}
		}
		w.Flush()
		stdin.Close()
	}()
	lines := make(chan string, 1024)
	go func() {
		r := bufio.NewReaderSize(stdout, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- l
		}
	}()
	done := 0
	timer := time.NewTimer(timeout)
	defer timer.Stop()
	poll := time.NewTicker(time.Second)
	defer poll.Stop()
	for {
		select {
		case <-poll.C:
			if fatal.Load() >= maxFatal {
				cmd.Process.Kill()
				cmd.Wait()
				for range lines {
				}
				return len(cases), ""
			}
		case l, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				if done == len(cases) {
					return done, ""
				}
				return done, fmt.Sprintf("the process died (%v): %s", err, stderr.String())
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(timeout)
			if strings.HasPrefix(l, "R ") {
				parts := strings.SplitN(strings.TrimSuffix(l, "\n"), " ", 3)
				idx, _ := strconv.Atoi(parts[1])
				if done >= len(cases) || cases[done].idx != idx {
					fmt.Fprintln(os.Stderr, "protocol error")
					os.Exit(2)
				}
				var o Outcome
				if err := json.Unmarshal([]byte(parts[2]), &o); err != nil {
					fmt.Fprintln(os.Stderr, "protocol error", err)
					os.Exit(2)
				}
				emit(cases[done], o)
				done++
			}
		case <-timer.C:
			cmd.Process.Kill()
			cmd.Wait()
			for range lines {
			}
			return done, fmt.Sprintf("did not end within %v", timeout)
		}
	}
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 2000 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) > 2000 {
		return string(t.buf[:2000])
	}
	return string(t.buf)
}

// Main runs the cases read from stdin, one JSON document per line or lines printed by TLC of the
// form "CASE {...}". Findings go to stdout as JSON lines, then a summary line.
// Records go to the file named by VH_RECORDS.
func Main(h Handler, args ...string) {
	if os.Getenv(childEnv) != "" {
		child(h)
		return
	}
	workers := 8
	if w, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil && w > 0 {
		workers = w
	}
	maxFindings := 200
	var (
		mu      sync.Mutex
		sum     = Summary{ByProp: map[string]int{}}
		keys    = map[string]bool{}
		printed = map[string]int{}
		enc     = json.NewEncoder(os.Stdout)
		rec     *bufio.Writer
		recs    = map[int]any{}
		samples []result
	)
	if p := os.Getenv("VH_RECORDS"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		rec = bufio.NewWriterSize(f, 1<<20)
		defer rec.Flush()
	}
	emit := func(c shardCase, o Outcome) {
		mu.Lock()
		defer mu.Unlock()
		if o.Skip {
			sum.Skipped++
			return
		}
		sum.Cases++
		if !o.Trivial {
			sum.Nontriv++
			if o.Key != "" {
				keys[o.Key] = true
			}
			if len(samples) < 3 || (sum.Cases%997 == 0 && len(samples) < 6) {
				samples = append(samples, result{Idx: c.idx, Case: json.RawMessage(c.raw)})
			}
		}
		if o.Record != nil {
			recs[c.idx] = o.Record
		}
		for _, f := range o.Findings {
			sum.Findings++
			sum.ByProp[f.Prop]++
			if printed[f.Prop] < maxFindings {
				printed[f.Prop]++
				enc.Encode(map[string]any{"finding": f, "case": json.RawMessage(c.raw), "idx": c.idx})
			}
		}
	}

	var wg sync.WaitGroup
	feed := make(chan []shardCase, workers)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range feed {
				runShard(args, batch, emit, caseTimeout)
			}
		}()
	}
	idx := 0
	var batch []shardCase
	send := func(raw string) {
		batch = append(batch, shardCase{idx, raw})
		idx++
		if len(batch) >= 2000 {
			feed <- batch
			batch = nil
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<22)
	for {
		line, err := in.ReadString('\n')
		if line = strings.TrimRight(line, "\n"); line != "" {
			switch {
			case strings.HasPrefix(line, `"CASE `):
				s, uerr := strconv.Unquote(line)
				if uerr != nil {
					fmt.Fprintln(os.Stderr, "bad case line:", line)
					os.Exit(2)
				}
				send(strings.TrimPrefix(s, "CASE "))
			case line[0] == '{':
				send(line)
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if len(batch) > 0 { // spread the rest
		n := (len(batch) + workers - 1) / workers
		for len(batch) > 0 {
			k := min(n, len(batch))
			feed <- batch[:k]
			batch = batch[k:]
		}
	}
	close(feed)
	wg.Wait()
	if rec != nil {
		for i := 0; i < idx; i++ {
			if r, ok := recs[i]; ok {
				b, _ := json.Marshal(r)
				rec.Write(b)
				rec.WriteByte('\n')
			}
		}
	}
	sum.Distinct = len(keys)
	enc.Encode(map[string]any{"summary": sum, "samples": samples})
}
