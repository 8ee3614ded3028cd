package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DaoCloud/ckube/utils"
)

func init() {
	register("C29", "exploration", c29)
}

type fwEvent struct {
	e       utils.Event
	content string // read when the event came
	at      time.Time
}

type fwFile struct {
	path    string
	mount   bool // a file of a mounted ConfigMap
	want    string
	began   time.Time // of the last change
	allowed bool      // changed since it was last quiet
	base    int       // events when it was last quiet
}

// fwRun is one watcher with its consumer.
type fwRun struct {
	c      *Ctx
	dir    string
	files  []*fwFile
	w      utils.FixedFileWatcher
	mu     sync.Mutex
	events []fwEvent
	ended  chan struct{}
	nap    chan time.Duration // for the consumer
	slow   time.Duration
	log    []string
}

func (r *fwRun) note(f string, a ...interface{}) {
	r.mu.Lock()
	r.log = append(r.log, time.Now().Format("05.000 ")+fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

func (r *fwRun) history() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	h := append([]string{}, r.log...)
	for _, e := range r.events {
		h = append(h, e.at.Format("05.000 ")+fmt.Sprintf("event %v, then read %q", e.e, e.content))
	}
	if len(h) > 80 {
		h = h[len(h)-80:]
	}
	return h
}

func (r *fwRun) consume() {
	defer close(r.ended)
	for {
		var e utils.Event
		var open bool
		select {
		case d := <-r.nap: // takes no events meanwhile
			time.Sleep(d)
			continue
		case e, open = <-r.w.Events():
		}
		if !open {
			return
		}
		b, _ := os.ReadFile(e.Name)
		r.mu.Lock()
		r.events = append(r.events, fwEvent{e, string(b), time.Now()})
		r.mu.Unlock()
		if r.slow > 0 {
			time.Sleep(r.slow)
		}
	}
}

// count is the number of change notifications for the file, and the time of the last event of any file.
func (r *fwRun) count(path string) (n int, last time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.events {
		if e.e.Name == path {
			n++
		}
		last = e.at
	}
	return
}

func (r *fwRun) told(f *fwFile) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := len(r.events) - 1; i >= 0; i-- {
		e := r.events[i]
		if e.at.Before(f.began) {
			return false
		}
		if e.e.Type == utils.EventTypeChanged && e.e.Name == f.path && e.content == f.want {
			return true
		}
	}
	return false
}

var fwChanges = []string{"truncate", "overwrite", "append", "same-size", "burst", "remove", "remove-slow", "remove-slower", "remove-twice", "replace", "move-away", "grow", "remove-then-write"}

// change rewrites the file in the given way; every write has another content.
func (r *fwRun) change(g *rand.Rand, f *fwFile, how string) {
	content := newVer() + strings.Repeat("x", g.Intn(200))
	write := func(p, s string) {
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			r.c.Inconclusive("%v", err)
		}
	}
	if f.mount {
		how = "mount"
	}
	r.note("%s %s", how, filepath.Base(f.path))
	f.began = time.Now()
	switch how {
	case "mount":
		if err := mountConfigMap(filepath.Dir(f.path), filepath.Base(f.path), []byte(content)); err != nil {
			r.c.Inconclusive("%v", err)
		}
	case "truncate":
		write(f.path, content)
	case "overwrite", "same-size": // without truncation
		if how == "same-size" {
			content = newVer()
			for len(content) < len(f.want) {
				content += "y"
			}
		} else if len(content) < len(f.want) {
			content += strings.Repeat("z", len(f.want)-len(content))
		}
		h, err := os.OpenFile(f.path, os.O_RDWR, 0)
		if err != nil {
			r.c.Inconclusive("%v", err)
			return
		}
		_, _ = h.WriteAt([]byte(content), 0)
		_ = h.Close()
	case "append", "grow":
		h, err := os.OpenFile(f.path, os.O_WRONLY|os.O_APPEND, 0)
		if err != nil {
			r.c.Inconclusive("%v", err)
			return
		}
		old := f.want
		for i := 0; i < 1+g.Intn(3); i++ {
			s := newVer()
			_, _ = h.WriteString(s)
			old += s
			if how == "grow" {
				time.Sleep(time.Duration(g.Intn(30)) * time.Millisecond)
			}
		}
		_ = h.Close()
		content = old
	case "burst":
		for i := 0; i < 30; i++ {
			write(f.path, newVer())
			if g.Intn(5) == 0 {
				time.Sleep(time.Duration(g.Intn(5)) * time.Millisecond)
			}
		}
		write(f.path, content)
	case "replace":
		write(f.path+".tmp", content)
		_ = os.Rename(f.path+".tmp", f.path)
	case "move-away":
		_ = os.Rename(f.path, f.path+".old")
		time.Sleep(time.Duration(g.Intn(300)) * time.Millisecond)
		write(f.path, content)
		write(f.path+".old", "no longer watched")
	default: // remove
		wait := time.Duration(g.Intn(100)) * time.Millisecond
		switch how {
		case "remove-slow":
			wait = time.Duration(1800+g.Intn(400)) * time.Millisecond // about when the watcher looks again
		case "remove-slower":
			wait = time.Duration(2500+g.Intn(3000)) * time.Millisecond
		}
		_ = os.Remove(f.path)
		time.Sleep(wait)
		if how == "remove-twice" {
			write(f.path, newVer())
			time.Sleep(wait)
			_ = os.Remove(f.path)
			time.Sleep(wait)
		}
		if how == "remove-then-write" {
			write(f.path, newVer())
			time.Sleep(time.Duration(1700+g.Intn(600)) * time.Millisecond)
			f.began = time.Now()
		}
		write(f.path, content)
	}
	f.want, f.allowed = content, true
	r.c.Count("change_"+how, 1)
}

func newRun(c *Ctx, g *rand.Rand, dir string, n int) *fwRun {
	r := &fwRun{c: c, dir: dir, ended: make(chan struct{}), nap: make(chan time.Duration)}
	_ = os.MkdirAll(dir, 0o755)
	for i := 0; i < n; i++ {
		f := &fwFile{path: filepath.Join(dir, pick(g, []string{"conf", "conf.json", "a b", "kube"})+fmt.Sprint(i)), want: newVer()}
		if g.Intn(6) == 0 {
			f.mount = true
			f.path = filepath.Join(dir, fmt.Sprintf("mount%d", i), "config")
			_ = os.MkdirAll(filepath.Dir(f.path), 0o755)
			if err := mountConfigMap(filepath.Dir(f.path), "config", []byte(f.want)); err != nil {
				c.Inconclusive("%v", err)
			}
		} else {
			_ = os.WriteFile(f.path, []byte(f.want), 0o644)
		}
		r.files = append(r.files, f)
	}
	return r
}

func (r *fwRun) paths() []string {
	var p []string
	for _, f := range r.files {
		p = append(p, f.path)
	}
	return p
}

func (r *fwRun) open() bool {
	w, err := utils.NewFixedFileWatcher(r.paths())
	if err != nil {
		r.c.Violate("open", "the watcher for existing files was refused: "+err.Error(), nil)
		return false
	}
	r.w = w
	return true
}

// quiet waits until nothing was reported for a while, and then expects that nothing is.
func (r *fwRun) quiet(g *rand.Rand) {
	for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		_, last := r.count("")
		since := last
		for _, f := range r.files {
			if f.began.After(since) {
				since = f.began
			}
		}
		if time.Since(since) > 3*time.Second {
			break
		}
		if time.Now().After(end) {
			r.c.Violate("noise", "events keep coming although no file changes", r.history())
			return
		}
	}
	for _, f := range r.files {
		f.base, _ = r.count(f.path)
		f.allowed = false
	}
	r.note("only reading and changing other files")
	for i := 0; i < 10; i++ {
		for _, f := range r.files {
			switch g.Intn(7) {
			case 0, 1:
				_, _ = os.ReadFile(f.path)
			case 2:
				_, _ = os.Stat(f.path)
			case 3:
				if h, err := os.OpenFile(f.path, os.O_RDWR, 0); err == nil {
					_ = h.Close()
				}
			case 4:
				_ = os.WriteFile(f.path+".other", []byte(newVer()), 0o644)
			case 5:
				_ = os.WriteFile(filepath.Join(r.dir, "new"+newVer()), []byte("x"), 0o644)
				_ = os.Remove(f.path + ".other")
			case 6:
				_ = os.WriteFile(f.path+"~", []byte(newVer()), 0o644)
				_ = os.Rename(f.path+"~", f.path+".renamed")
				if !f.mount {
					_, _ = os.ReadDir(r.dir)
				}
			}
		}
		time.Sleep(time.Duration(g.Intn(60)) * time.Millisecond)
	}
	time.Sleep(time.Duration(300+g.Intn(1000)) * time.Millisecond)
	r.silent("after nothing but reads and changes of other files")
	r.c.Count("quiet_periods", 1)
}

// silent checks that files which did not change were not reported.
func (r *fwRun) silent(when string) {
	for _, f := range r.files {
		if n, _ := r.count(f.path); !f.allowed && n > f.base {
			r.c.Violate("false-report", fmt.Sprintf("%d notifications for %s %s", n-f.base, filepath.Base(f.path), when), r.history())
			f.base = n
		}
	}
}

func (r *fwRun) script(g *rand.Rand, steps int) {
	for i := 0; i < steps && !r.c.Stop(); i++ {
		var mine []*fwFile
		for _, f := range r.files {
			if g.Intn(len(r.files)) == 0 {
				mine = append(mine, f)
			}
		}
		if mine == nil {
			mine = r.files[:1]
		}
		var wg sync.WaitGroup
		var hows []string
		if g.Intn(8) == 0 {
			select {
			case r.nap <- time.Duration(8+g.Intn(4)) * time.Second:
				r.note("the consumer is busy")
				r.c.Count("late_consumers", 1)
			case <-time.After(time.Second):
			}
		}
		for _, f := range mine {
			how := pick(g, fwChanges)
			hows = append(hows, how)
			wg.Add(1)
			go func(f *fwFile, g *rand.Rand) { defer wg.Done(); r.change(g, f, how) }(f, rand.New(rand.NewSource(g.Int63())))
		}
		wg.Wait()
		r.c.Eval(fmt.Sprintf("%d files %v after %d changes", len(r.files), hows, i))
		if g.Intn(3) == 0 {
			continue // several changes in a row
		}
		r.wait()
		r.silent("while other watched files changed")
		if g.Intn(3) == 0 {
			r.quiet(g)
		}
	}
	r.wait()
	r.quiet(g)
}

// wait expects a notification for every changed file.
func (r *fwRun) wait() {
	end := time.Now().Add(30 * time.Second)
	for _, f := range r.files {
		if !f.allowed {
			continue
		}
		for !r.told(f) {
			if time.Now().After(end) {
				r.c.Violate("missed", fmt.Sprintf("no notification of the last change of %s, within 30 s, at which its new content was readable", filepath.Base(f.path)), r.history())
				f.allowed = false
				f.base, _ = r.count(f.path)
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		r.c.Count("changes_reported", 1)
	}
}

func inotifyFDs() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, _ := os.Readlink("/proc/self/fd/" + e.Name()); strings.Contains(l, "inotify") {
			n++
		}
	}
	return n
}

// fwLeft are the goroutines of file watchers.
func fwLeft() []string {
	b := make([]byte, 1<<22)
	b = b[:runtime.Stack(b, true)]
	var l []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, "fsnotify") || strings.Contains(s, "fs_watcher.go") {
			l = append(l, s)
		}
	}
	return l
}

func c29clean(c *Ctx, when string, base int) {
	end := time.Now().Add(20 * time.Second)
	for {
		n, l := inotifyFDs(), fwLeft()
		if n <= base && len(l) == 0 {
			c.Count("left_nothing", 1)
			return
		}
		if time.Now().After(end) {
			if len(l) > 3 {
				l = l[:3]
			}
			c.Violate("left", fmt.Sprintf("%s, %d inotify instances (%d before) and %d goroutines are left", when, n, base, len(l)), l)
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// shut closes the watcher and expects its stream to end.
func (r *fwRun) shut(key string, closers int, drain bool) {
	var wg sync.WaitGroup
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := r.w.Close(); err != nil {
				r.note("Close: %v", err)
			}
		}()
	}
	if !waitTimeout(&wg, 30*time.Second) {
		r.c.Violate("close/"+key, "Close did not return within 30 s: "+key, stacks())
		return
	}
	if drain {
		go r.consume()
	}
	select {
	case <-r.ended:
		r.c.Count("closed_"+key, 1)
	case <-time.After(30 * time.Second):
		r.c.Violate("close/"+key, "the event stream did not end within 30 s of Close: "+key, stacks())
	}
}

func c29(c *Ctx) {
	c.Rule("a case is one step of changes to the files of a watcher, or one Close; distinct by the changes made, the number of files and the position in the script, or by the moment of Close")
	c.Assume("a notification counts when it arrives within 30 s; a consumer reads the file when it is notified; chmod and touch are not judged")
	g := c.Rand(1)
	base := inotifyFDs()
	var wg sync.WaitGroup
	var started int64
	for i := 0; i < c.N(36, 40); i++ {
		wg.Add(1)
		go func(i int, g *rand.Rand) {
			defer wg.Done()
			r := newRun(c, g, filepath.Join(c.Tmp, fmt.Sprintf("w%d", i)), 1+i%4)
			if !r.open() {
				return
			}
			if i%3 == 0 {
				r.slow = time.Duration(g.Intn(150)) * time.Millisecond
			}
			if err := r.w.Start(); err != nil {
				c.Violate("start", err.Error(), nil)
				return
			}
			atomic.AddInt64(&started, 1)
			go r.consume()
			r.script(g, c.N(5, 60))
			r.shut("idle", 1, false)
		}(i, rand.New(rand.NewSource(g.Int63())))
	}
	if !waitTimeout(&wg, time.Duration(c.N(10, 120))*time.Minute) {
		c.Violate("blocked", "scripts did not end", stacks())
		return
	}
	c29clean(c, "after all watchers were closed", base)
	c.Need("changes_reported", 60)
	c.Need("quiet_periods", 30)
	for wave := 0; wave < c.N(5, 60) && !c.Stop(); wave++ {
		c29wave(c, g, wave)
	}
	for _, k := range fwMoments {
		c.Need("closed_"+k, 5)
	}
}

var fwMoments = []string{"before-start", "just-started", "storm-unread", "storm-read", "pause", "missing", "racing-start", "failed-start", "after-events"}

func c29wave(c *Ctx, g *rand.Rand, wave int) {
	base := inotifyFDs()
	var wg sync.WaitGroup
	for i := 0; i < 3*len(fwMoments); i++ {
		wg.Add(1)
		go func(i int, g *rand.Rand) {
			defer wg.Done()
			moment := fwMoments[i%len(fwMoments)]
			r := newRun(c, g, filepath.Join(c.Tmp, fmt.Sprintf("close%d-%d", wave, i)), 1+g.Intn(3))
			if !r.open() {
				return
			}
			c.Eval("close " + moment + fmt.Sprint(len(r.files)))
			start := func() bool {
				if err := r.w.Start(); err != nil {
					c.Violate("start", err.Error(), nil)
					return false
				}
				return true
			}
			stop := make(chan struct{})
			var sw sync.WaitGroup
			storm := func(stop chan struct{}) {
				for _, f := range r.files {
					sw.Add(1)
					go func(f *fwFile) {
						defer sw.Done()
						for {
							select {
							case <-stop:
								return
							default:
								_ = os.WriteFile(f.path, []byte(newVer()), 0o644)
							}
						}
					}(f)
				}
			}
			drain := true
			pause := time.Duration(g.Intn(60)) * time.Millisecond
			switch moment {
			case "before-start":
			case "just-started":
				if !start() {
					return
				}
			case "storm-unread":
				if !start() {
					return
				}
				storm(stop)
				time.Sleep(pause)
			case "storm-read", "after-events":
				if !start() {
					return
				}
				drain = false
				go r.consume()
				storm(stop)
				time.Sleep(pause)
				if moment == "after-events" {
					close(stop)
					stop = make(chan struct{})
					sw.Wait()
					time.Sleep(pause)
				}
			case "pause", "missing":
				if !start() {
					return
				}
				if g.Intn(2) == 0 {
					drain = false
					go r.consume()
				}
				for _, f := range r.files {
					_ = os.Remove(f.path)
					if moment == "pause" && g.Intn(2) == 0 {
						_ = os.WriteFile(f.path, []byte("new"), 0o644)
					}
				}
				if moment == "pause" {
					time.Sleep(time.Duration(g.Intn(2200)) * time.Millisecond)
				} else {
					time.Sleep(time.Duration(1900+g.Intn(2300)) * time.Millisecond)
				}
			case "racing-start":
				sw.Add(1)
				go func() {
					defer sw.Done()
					_ = r.w.Start()
				}()
				if g.Intn(2) == 0 {
					runtime.Gosched()
				} else {
					time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
				}
			case "failed-start":
				_ = os.Remove(r.files[len(r.files)-1].path)
				if err := r.w.Start(); err == nil {
					c.Count("started_without_file", 1)
				}
			}
			r.shut(moment, 1+g.Intn(3), drain)
			close(stop)
			sw.Wait()
			if err := r.w.Start(); err == nil { // a closed watcher stays closed
				select {
				case _, open := <-r.w.Events():
					if open {
						c.Violate("close/"+moment, "events after Close", nil)
					}
				case <-time.After(10 * time.Second):
					c.Violate("close/"+moment, "started again after Close without an end of its events", nil)
				}
				_ = r.w.Close()
			}
			_ = r.w.Close()
		}(i, rand.New(rand.NewSource(g.Int63())))
	}
	if !waitTimeout(&wg, 180*time.Second) {
		c.Violate("blocked", "closing watchers did not end", stacks())
		return
	}
	c29clean(c, "after watchers were closed at all moments", base)
}
