package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/HannesKimara/cddlc/config"

	"verif/harness/internal/sup"
)

type initCase struct {
	Pre   string            `json:"pre"`
	Wd    string            `json:"wd"`
	Near  []string          `json:"near"`
	Procs int               `json:"procs"`
	Sched []json.RawMessage `json:"sched"`
	OKs   int               `json:"oks"`
	After string            `json:"after"`
	Crowd bool              `json:"crowd"` // all at once, without a schedule
}

const slot = 90 * time.Millisecond

// when a process starts, opens the configuration and writes it, in slots.
type timing struct{ start, open, write int }

func (c *initCase) timings() []timing {
	t := make([]timing, c.Procs)
	for i, raw := range c.Sched {
		var e []json.RawMessage
		must(json.Unmarshal(raw, &e))
		var p int
		var what string
		must(json.Unmarshal(e[0], &p))
		must(json.Unmarshal(e[1], &what))
		switch what {
		case "start":
			t[p-1].start = i
		case "open":
			t[p-1].open = i
		case "write":
			t[p-1].write = i
		}
	}
	return t
}

func tree(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(root, p)
		d := fi.Mode().String()
		if fi.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			d += " -> " + l
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			d += " " + string(b)
		}
		out[rel] = d
		return nil
	})
	return out
}

func differences(a, b map[string]string, except string) []string {
	var out []string
	for p := range b {
		if _, ok := a[p]; !ok && p != except {
			out = append(out, "there is a new "+p+": "+b[p])
		}
	}
	for p, d := range a {
		if e, ok := b[p]; !ok {
			out = append(out, p+" is gone")
		} else if e != d && p != except {
			out = append(out, fmt.Sprintf("%s was %.200q and is %.200q", p, d, e))
		}
	}
	sort.Strings(out)
	return out
}

func holds(bin, wd, path string, open, write time.Duration) *exec.Cmd {
	args := []string{bin, "init"}
	if open > 0 || write > 0 {
		a := []string{"strace", "-f", "-qq", "-o", "/dev/null", "-P", path, "-P", filepath.Base(path), "-P", "./" + filepath.Base(path)}
		a = append(a, "-e", "trace=open,openat,openat2,creat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,write,pwrite64,writev,ftruncate,truncate")
		if open > 0 {
			a = append(a, "-e", fmt.Sprintf("inject=open,openat,openat2,creat,rename,renameat,renameat2,link,linkat,symlink,symlinkat:delay_enter=%d", open.Microseconds()))
		}
		if write > 0 {
			a = append(a, "-e", fmt.Sprintf("inject=write,pwrite64,writev,ftruncate,truncate:delay_enter=%d", write.Microseconds()))
		}
		args = append(a, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = wd
	cmd.Env = []string{"PATH=/usr/bin:/bin:/usr/local/bin", "HOME=/nonexistent", "PWD=" + wd, "GOTRACEBACK=single", "GOMAXPROCS=2"}
	if asNobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return cmd
}

var canHold = os.Getenv("CLI_STRACE") == "yes"

// replayInit runs the processes of a case and looks at what they leave.
func replayInit(raw json.RawMessage) (out sup.Outcome) {
	var c initCase
	must(json.Unmarshal(raw, &c))
	if !asNobody && (c.Wd == "sealed" || c.Pre == "secret") {
		return sup.Outcome{Skip: true}
	}
	s := setup(&genCase{First: []item{{node: node{K: "dir"}}}}, string(raw))
	defer s.clear()
	report := func(f string, a ...any) {
		if len(out.Findings) == 0 {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C19", Detail: fmt.Sprintf(f, a...) + fmt.Sprintf("\n in %s: %s", filepath.Base(s.wd), raw)})
		}
	}
	path := filepath.Join(s.wd, "cddlc.json")
	target := filepath.Join(s.store, "target")
	switch c.Pre {
	case "none":
	case "file":
		must(os.WriteFile(path, []byte("something of the user's\n"), 0644))
	case "config":
		must(os.WriteFile(path, []byte(`{"version": "1", "builds": []}`), 0644))
	case "empty":
		must(os.WriteFile(path, nil, 0644))
	case "secret":
		must(os.WriteFile(path, []byte("not to be read\n"), 0))
	case "dir":
		must(os.Mkdir(path, 0755))
	case "fulldir":
		must(os.Mkdir(path, 0755))
		must(os.WriteFile(filepath.Join(path, "x"), []byte("x"), 0644))
	case "dangling":
		must(os.Symlink([]string{target, "../store/target", "gone"}[s.pick("t", 3)], path))
	case "filelink":
		must(os.WriteFile(target, nil, 0644))
		must(os.Symlink(target, path))
	case "dirlink":
		must(os.Symlink(s.store, path))
	case "loop":
		must(os.Symlink("cddlc.json", path))
	case "fifo":
		must(syscall.Mkfifo(path, 0644))
	case "device":
		must(os.Symlink("/dev/null", path))
	default:
		panic("harness: " + c.Pre)
	}
	for i, n := range c.Near {
		switch (i + s.pick("near", 3)) % 3 {
		case 0:
			must(os.WriteFile(filepath.Join(s.wd, n), []byte("near "+n), 0644))
		case 1:
			must(os.Mkdir(filepath.Join(s.wd, n), 0755))
		default:
			must(os.Symlink("nowhere", filepath.Join(s.wd, n)))
		}
	}
	s.seal([]item{{node: node{K: map[string]string{"open": "dir", "sealed": "sealed"}[c.Wd]}}})
	before, stored := tree(s.wd), tree(s.store)

	// the processes
	times := make([]timing, c.Procs)
	if !c.Crowd {
		times = c.timings()
	}
	var wg sync.WaitGroup
	errs := make([]error, c.Procs)
	texts := make([]bytes.Buffer, c.Procs)
	begin := time.Now()
	gate := make(chan struct{})
	sequential := true
	for i := 1; i < c.Procs; i++ {
		sequential = sequential && times[i].start > times[i-1].write && times[i].start > times[i-1].open
	}
	for i := range times {
		t := times[i]
		var open, write time.Duration
		if !c.Crowd && !sequential && canHold {
			open = time.Duration(t.open-t.start-1) * slot
			if t.write > t.open {
				write = time.Duration(t.write-t.open-1) * slot
			}
		}
		cmd := holds(binary, s.wd, path, open, write)
		cmd.Stdout, cmd.Stderr = &texts[i], &texts[i]
		if sequential && !c.Crowd {
			errs[i] = cmd.Run()
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			if !c.Crowd {
				time.Sleep(time.Until(begin.Add(time.Duration(t.start) * slot)))
			}
			errs[i] = cmd.Run()
		}(i)
	}
	begin = time.Now()
	close(gate)
	wg.Wait()

	oks := 0
	for i, err := range errs {
		var ee *exec.ExitError
		text := strings.TrimSpace(texts[i].String())
		switch {
		case err == nil:
			oks++
		case !errors.As(err, &ee):
			panic(fmt.Sprint("harness: ", err))
		case ee.ExitCode() < 0 || strings.Contains(text, "goroutine ") || text == "":
			report("init ends with %d and says %.1000q", ee.ExitCode(), text)
		}
	}
	if oks != c.OKs {
		report("%d of %d init succeed, expected %d: %q", oks, c.Procs, c.OKs, texts[0].String())
	}
	after := tree(s.wd)
	except := ""
	if c.After == "new" {
		except = "cddlc.json"
	}
	if d := differences(before, after, except); len(d) > 0 {
		report("changed: %s", strings.Join(d, "; "))
	}
	if d := differences(stored, tree(s.store), ""); len(d) > 0 {
		report("changed outside of the directory: %s", strings.Join(d, "; "))
	}
	if c.After == "new" && len(out.Findings) == 0 {
		s.inUse(path, report)
	}
	out.Key = fmt.Sprint(c.Pre, c.Wd, c.Procs, c.Crowd, hash(string(raw)))
	return out
}

// inUse checks the configuration init wrote: it loads as the default, and generate uses it.
func (s *scene) inUse(path string, report func(string, ...any)) {
	fi, err := os.Lstat(path)
	if err != nil || !fi.Mode().IsRegular() {
		report("cddlc.json is no file: %v", err)
		return
	}
	text, err := os.ReadFile(path)
	must(err)
	var one any
	if err := json.Unmarshal(text, &one); err != nil {
		report("cddlc.json does not hold one configuration: %v: %.300q", err, text)
		return
	}
	if fi.Mode().Perm()&0600 != 0600 {
		report("cddlc.json has mode %v", fi.Mode())
	}
	got, err := config.LoadConfig(path)
	if err != nil {
		report("the configuration of init does not load: %v: %.300q", err, text)
		return
	}
	if want := config.NewDefaultConfig(); !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		report("loads back as %s, the default is %s", g, w)
	}
	if err := got.Valid(); err != nil {
		report("the configuration of init is not valid: %v", err)
	}
	if len(got.Builds) != 1 || got.Builds[0].SourceDir != "." || filepath.Clean(got.Builds[0].OutDir) != "dist" || got.Builds[0].Package != "dist" || got.Version != "1" {
		report("the default configuration: %.300q", text)
	}
	// a second init leaves it alone
	o := execute(binary, s.wd, "", "init")
	again, _ := os.ReadFile(path)
	if o.exit == 0 || !bytes.Equal(again, text) {
		report("a second init ends with %d, cddlc.json was %.300q and is %.300q", o.exit, text, again)
	}
	for _, name := range []string{"dist", "cddlc.yaml"} { // a neighbour of that name may be in the way
		if _, err := os.Lstat(filepath.Join(s.wd, name)); err == nil {
			return
		}
	}
	src := nth(pool.Good, s.pick("src", 1<<20)) + "\nrule-1q = int\n"
	must(os.WriteFile(filepath.Join(s.wd, "in.cddl"), []byte(src), 0644))
	o = execute(binary, s.wd, "", "generate")
	if o.exit != 0 || strings.Contains(o.stdout+o.stderr, "default config") {
		report("generate with the configuration of init ends with %d: %q", o.exit, o.stderr)
		return
	}
	b, _ := os.ReadFile(filepath.Join(s.wd, "dist", "in.go"))
	want, err := code(src, "dist")
	must(err)
	if !strings.HasSuffix(string(b), strings.TrimLeft(want, "\n")) {
		report("generate with the configuration of init writes %.300q", b)
	}
}
