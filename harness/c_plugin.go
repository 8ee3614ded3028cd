package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	k8slabels "k8s.io/apimachinery/pkg/labels"
)

func init() {
	register("C26", "exploration", c26)
}

const c26script = `#!/bin/sh
# records its arguments and plays the part it was told to
{ printf '%s\0' "$#"; for a in "$@"; do printf '%s\0' "$a"; done; } > "$FAKE_DIR/argv"
echo run >> "$FAKE_DIR/runs"
cat "$FAKE_DIR/out"
cat "$FAKE_DIR/err" >&2
[ -n "$FAKE_STDIN" ] && cat > "$FAKE_DIR/stdin"
[ -n "$FAKE_KILL" ] && kill -9 $$
exit $FAKE_CODE
`

// pluginCase is one command line and what must come of it.
type pluginCase struct {
	args     []string // the user's
	keep     []string // those which kubectl must get, without selector and cluster option
	clusters []string
	verb     string // get, create, other
	sel      Sel
	selText  string
	hasSel   bool
	form     string // of the selector
	cform    string // of the cluster option
	ends     bool   // has --
	manager  bool   // the user names a field manager
	reject   string // why it has to be refused
}

func genPluginCase(g *rand.Rand) *pluginCase {
	p := &pluginCase{verb: pick(g, []string{"get", "get", "get", "create"})}
	if g.Intn(25) == 0 {
		p.verb = pick(g, []string{"delete", "describe", "apply", ""})
	}
	type arg struct {
		words []string
		kind  string
	}
	var list []arg
	add := func(kind string, w ...string) { list = append(list, arg{w, kind}) }
	global := [][]string{{"-n", "kube-system"}, {"--namespace", "get"}, {"-n", "create"}, {"--namespace=create"}, {"-nget"}, {"--context", "create"}, {"--context", "get"},
		{"-v", "6"}, {"-v=6"}, {"--v=3"}, {"--kubeconfig", "/tmp/get"}, {"--as=get"}, {"--user", "create"}, {"-s", "https://x"}, {"--request-timeout", "5s"}, {"--insecure-skip-tls-verify"}, {"--match-server-version"}}
	for i := g.Intn(3); i > 0; i-- {
		add("", global[g.Intn(len(global))]...)
	}
	if p.verb != "" {
		add("", p.verb)
	}
	for i := g.Intn(3); i > 0; i-- {
		add("", pick(g, []string{"pods", "pods/x", "deploy,svc", "get", "create", "configmap", "a b", "", "--watch", "ünï", "l", "delete"}))
	}
	opts := [][]string{{"-A"}, {"-o", "yaml"}, {"-oyaml"}, {"-o=jsonpath={.metadata.labels}"}, {"-w"}, {"--show-labels"}, {"-L", "app"}, {"-Lapp"}, {"--label-columns", "app=x"}, {"-f", "-"}, {"-f", "file with spaces"},
		{"--sort-by=.metadata.name"}, {"--field-selector", "metadata.name=x"}, {"--field-selector=a=b,c!=d"}, {"-o", "custom-columns=A:.a,B:.b"}, {"--all-namespaces=true"}, {"--no-headers"},
		{"-R"}, {"--limit", "5"}, {"--chunk-size", "10"}, {"--template", "{{.clusters}}"}, {"--output", "jsonpath={.items[*].metadata.name}"}, {"-nl"}, {"-olabels"}, {"--dry-run=client"}, {"--from-literal=a=--clusters"}}
	for i := g.Intn(4); i > 0; i-- {
		add("", opts[g.Intn(len(opts))]...)
	}
	insert := func(kind string, w ...string) {
		i := g.Intn(len(list) + 1)
		list = append(list[:i], append([]arg{{w, kind}}, list[i:]...)...)
	}
	// selector
	if g.Intn(3) > 0 {
		p.hasSel = true
		p.sel = genSel(g, labelKeys, labelVs, g.Intn(4))
		p.selText = p.sel.render(g)
		if g.Intn(15) == 0 && p.verb == "get" {
			p.selText = pick(g, []string{"a in (b", "a==b==c", "!!x", "a in b", "-bad", "a=b c", "a,,b", "x in (),,", "=v"})
			p.reject = "invalid selector"
		}
		v := p.selText
		p.form = pick(g, []string{"-l X", "-lX", "-l=X", "--selector X", "--selector=X", "-Al X", "-AlX", "-wl=X", "-Rl X"})
		switch {
		case strings.HasSuffix(p.form, " X"):
			insert("sel", strings.TrimSuffix(p.form, " X"), v)
		case v == "" && !strings.HasSuffix(p.form, "=X"):
			p.form = "-l X"
			insert("sel", "-l", v)
		case strings.HasPrefix(v, "=") && !strings.HasSuffix(p.form, "=X"):
			p.form = "--selector=X"
			insert("sel", "--selector="+v)
		case v == "" && p.form != "--selector=X": // -l= is -l with the value of the next argument for nobody
			p.form = "--selector=X"
			insert("sel", "--selector=")
		default:
			insert("sel", strings.TrimSuffix(p.form, "X")+v)
		}
	}
	if p.hasSel && g.Intn(8) == 0 { // of several selectors the last counts
		at := 0
		for i, a := range list {
			if a.kind == "sel" {
				at = g.Intn(i + 1)
			}
		}
		w := [][]string{{"-l", "app=decoy"}, {"-lapp=decoy"}, {"--selector", "app notin (decoy)"}, {"--selector=!decoy"}}[g.Intn(4)]
		list = append(list[:at], append([]arg{{w, ""}}, list[at:]...)...)
	}
	if g.Intn(8) == 0 {
		p.manager = true
		if g.Intn(2) == 0 {
			insert("", "--field-manager", "me")
		} else {
			insert("", "--field-manager=me")
		}
	}
	if g.Intn(6) > 0 {
		all := []string{"c1", "c2", "c-3", "c.4", "c_5", "absent"}
		for i := 1 + g.Intn(3); i > 0; i-- {
			p.clusters = append(p.clusters, pick(g, all))
		}
		if p.verb == "create" && g.Intn(3) > 0 {
			p.clusters = p.clusters[:1]
		}
		if g.Intn(30) == 0 {
			p.clusters = append(p.clusters, all...)
			for i := 0; i < 60; i++ {
				p.clusters = append(p.clusters, fmt.Sprintf("far-away-cluster-%d", i))
			}
		}
		v := strings.Join(p.clusters, ",")
		if g.Intn(20) == 0 {
			v = pick(g, []string{"a b", "c1;c2", "c1)", "-", "c1,bad name", "c/1", "ünï"})
			p.clusters = strings.Split(v, ",")
			p.reject = "maybe"
		}
		p.cform = pick(g, []string{"--clusters X", "--clusters=X"})
		if p.cform == "--clusters X" {
			insert("clusters", "--clusters", v)
		} else {
			insert("clusters", "--clusters="+v)
		}
	} else if p.reject != "" {
		p.reject = "" // passed on as it is
	}
	for _, a := range list {
		p.args = append(p.args, a.words...)
		if a.kind == "" || a.kind == "sel" && (p.verb != "get" || p.clusters == nil) {
			p.keep = append(p.keep, a.words...)
		}
	}
	if g.Intn(10) == 0 {
		p.ends = true
		rest := [][]string{{"--"}, {"--", "--clusters", "c2"}, {"--", "-l", "app=x", "get"}, {"--", "x", "--selector=a"}}[g.Intn(4)]
		p.args = append(p.args, rest...)
		p.keep = append(p.keep, rest...)
	}
	switch {
	case p.verb == "":
		p.reject = "skip"
	case p.verb != "get" && p.verb != "create":
		p.reject = "command"
	case p.verb == "create" && len(p.clusters) > 1:
		p.reject = "clusters"
	case p.verb == "create" && p.clusters != nil && p.manager:
		p.reject = "manager"
	}
	return p
}

// takeSelector removes the last selector option from an argument list.
func takeSelector(args []string) (rest []string, sel string, found bool) {
	end := len(args)
	for i, a := range args {
		if a == "--" {
			end = i
			break
		}
	}
	values := map[string]bool{}
	for _, v := range []string{"-n", "--namespace", "--context", "-v", "--kubeconfig", "--user", "-s", "--request-timeout", "-o", "--output", "-L", "--label-columns", "-f", "--field-selector", "--limit", "--chunk-size", "--template", "--field-manager"} {
		values[v] = true
	}
	at, n := -1, 0
	for i := 0; i < end; i++ {
		a := args[i]
		switch {
		case values[a]:
			i++
		case a == "--selector" && i+1 < end:
			at, n, sel = i, 2, args[i+1]
			i++
		case strings.HasPrefix(a, "--selector="):
			at, n, sel = i, 1, a[len("--selector="):]
		case strings.HasPrefix(a, "-") && !strings.HasPrefix(a, "--"):
			j := 1
			for j < len(a) && strings.ContainsRune("AwR", rune(a[j])) {
				j++
			}
			if j < len(a) && a[j] == 'l' {
				if j+1 == len(a) && i+1 < end {
					at, n, sel = i, 2, args[i+1]
					i++
				} else {
					at, n, sel = i, 1, strings.TrimPrefix(a[j+1:], "=")
				}
			}
		}
	}
	if at < 0 {
		return args, "", false
	}
	return append(append([]string{}, args[:at]...), args[at+n:]...), sel, true
}

func c26(c *Ctx) {
	c.Rule("a case is one run of the plugin with a fake kubectl first in PATH; non-trivial when it has a selector or a cluster option; distinct by command line")
	c.Assume("kubectl's options are those of its get and create commands; of several selector options the last counts, as in kubectl")
	g := c.Rand(1)
	// objects the proxy selects from
	cs := []string{"c1", "c2", "c-3", "c.4", "c_5", "other"}
	w := NewWorld([]*gvrDef{defPods}, cs, "other", "")
	defer w.Close()
	sets := genLabelSets(g, 40)
	for _, cl := range cs {
		for i, m := range sets {
			o := genObj(g, defPods, cl, "default", fmt.Sprintf("p%d", i))
			md := at(o.Raw, "metadata").(map[string]interface{})
			delete(md, "labels")
			if len(m) > 0 {
				md["labels"] = strMap(m)
			}
			o = finishObj(defPods, cl, "default", o.Name, o.Raw)
			if err := w.Store.OnResourceAdded(defPods.gvr(), cl, decoded(defPods, o.Bytes)); err != nil {
				panic(err)
			}
			w.Objs[defPods][o.id()] = o
		}
	}
	// written before anything is run: a file that is open for writing while another process is started cannot be run
	_ = os.MkdirAll(filepath.Join(c.Tmp, "bin"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Tmp, "bin", "kubectl"), []byte(c26script), 0o755); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	n := c.N(2500, 40000)
	cases := make(chan *pluginCase)
	var wg sync.WaitGroup
	var seq int64
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		eg := rand.New(rand.NewSource(g.Int63()))
		go func() {
			defer wg.Done()
			for p := range cases {
				c26one(c, w, eg, p, &mu, int(atomic.AddInt64(&seq, 1)))
			}
		}()
	}
	for i := 0; i < n && !c.Stop(); i++ {
		cases <- genPluginCase(g)
	}
	close(cases)
	wg.Wait()
	for _, k := range []string{"ran_get", "ran_create", "refused", "without_clusters", "selectors_judged", "stdin_passed"} {
		c.Need(k, 20)
	}
	c26missing(c)
}

func c26env(dir, path string) []string {
	return []string{"PATH=" + path, "HOME=" + dir, "FAKE_DIR=" + dir}
}

func c26run(c *Ctx, dir string, args, env []string, stdin []byte) (out, errOut []byte, code int) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BUILD"), "ckube-plugin"), args...)
	cmd.Dir, cmd.Env, cmd.Stdin = dir, env, bytes.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		c.Inconclusive("%v", err)
		return nil, nil, -9
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil && cmd.ProcessState == nil {
			c.Inconclusive("%v", err)
			return nil, nil, -9
		}
		return o.Bytes(), e.Bytes(), cmd.ProcessState.ExitCode()
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		return nil, nil, -2
	}
}

func c26one(c *Ctx, w *World, g *rand.Rand, p *pluginCase, mu *sync.Mutex, seq int) {
	if p.reject == "skip" || c.Stop() {
		return
	}
	dir := filepath.Join(c.Tmp, fmt.Sprintf("plugin%d", seq))
	_ = os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	out := []byte(pick(g, []string{"", "NAME  READY\nx  1/1\n", "no newline", "\x00\xff binary"}))
	if g.Intn(40) == 0 {
		out = bytes.Repeat([]byte("0123456789abcdef"), 20000)
	}
	errText := []byte(pick(g, []string{"", "Error from server (NotFound)\n", "Warning: x"}))
	_ = os.WriteFile(filepath.Join(dir, "out"), out, 0o644)
	_ = os.WriteFile(filepath.Join(dir, "err"), errText, 0o644)
	code := pickInt(g, []int{0, 0, 0, 1, 2, 3, 42, 130, 255})
	env := append(c26env(dir, filepath.Join(c.Tmp, "bin")+":/usr/bin:/bin"), "FAKE_CODE="+strconv.Itoa(code))
	var stdin []byte
	if g.Intn(3) == 0 {
		stdin = bytes.Repeat([]byte("kind: Pod\n"), 1+g.Intn(20000))
		env = append(env, "FAKE_STDIN=1")
	}
	if g.Intn(40) == 0 {
		env, code = append(env, "FAKE_KILL=1"), -1
	}
	gotOut, gotErr, gotCode := c26run(c, dir, p.args, env, stdin)
	if gotCode == -9 {
		return
	}
	sig := ""
	if p.clusters != nil || p.hasSel {
		sig = strings.Join(p.args, "\x00")
	}
	c.Eval(sig)
	if seq%800 == 0 {
		c.Sample(map[string]interface{}{"args": p.args})
	}
	wit := map[string]interface{}{"args": p.args, "stderr": trunc(gotErr), "exit": gotCode}
	key := p.verb + "/" + p.form + "/" + p.cform
	bad := func(what, text string) { c.Violate(what+"/"+key, fmt.Sprintf("%q: %s", p.args, text), wit) }
	raw, rerr := os.ReadFile(filepath.Join(dir, "argv"))
	runs, _ := os.ReadFile(filepath.Join(dir, "runs"))
	if len(runs) > len("run\n") {
		bad("runs", fmt.Sprintf("kubectl ran %d times", len(runs)/4))
	}
	if rerr != nil { // kubectl did not run
		if gotCode <= 0 || len(gotErr) == 0 {
			bad("silent", "kubectl did not run, and no error was reported")
		}
		if p.reject == "" {
			bad("refused", "refused: "+trunc(gotErr))
		}
		c.Count("refused", 1)
		return
	}
	if p.reject != "" && p.reject != "maybe" {
		bad("dropped", "ran although it can not be expressed ("+p.reject+")")
	}
	argv := strings.Split(strings.TrimSuffix(string(raw), "\x00"), "\x00")[1:]
	wit["kubectl"] = argv
	if strings.TrimSuffix(string(raw), "\x00") == "0" {
		argv = nil
	}
	// streams and exit code
	if !bytes.Equal(gotOut, out) {
		bad("stdout", fmt.Sprintf("the standard output differs: %s", trunc(gotOut)))
	}
	if said := string(gotErr); said != string(errText) && (p.clusters != nil && code != -1 || !strings.Contains(said, string(errText))) {
		bad("stderr", "the standard error differs")
	}
	if code == -1 && gotCode == 0 || code != -1 && gotCode != code {
		// a kubectl killed by a signal has no exit code: anything but success
		bad("exit", fmt.Sprintf("exit code %d became %d", code, gotCode))
	}
	if stdin != nil {
		if b, _ := os.ReadFile(filepath.Join(dir, "stdin")); !bytes.Equal(b, stdin) {
			bad("stdin", fmt.Sprintf("kubectl read %d bytes of %d", len(b), len(stdin)))
		}
		c.Count("stdin_passed", 1)
	}
	if p.clusters == nil {
		if strings.Join(argv, "\x00") != strings.Join(p.args, "\x00") {
			bad("args", "without a cluster option the arguments changed")
		}
		c.Count("without_clusters", 1)
		return
	}
	mu.Lock() // the upstreams' records
	defer mu.Unlock()
	switch p.verb {
	case "get":
		rest, sel, found := takeSelector(argv)
		if !found {
			bad("args", "kubectl got no selector")
			return
		}
		if strings.Join(rest, "\x00") != strings.Join(p.keep, "\x00") {
			bad("args", fmt.Sprintf("other arguments changed: %q, wanted %q", rest, p.keep))
		}
		if p.reject == "" {
			// a selector option stays where it was
			if _, err := k8slabels.Parse(sel); err != nil {
				bad("selector", fmt.Sprintf("kubectl would refuse the selector: %v", err))
				return
			}
		}
		l, err := parseList(w.get("/api/v1/pods?labelSelector=" + url.QueryEscape(sel)))
		if err != nil {
			bad("selector", "the proxy refused the selector: "+err.Error())
			return
		}
		var want []string
		for _, o := range w.Objs[defPods] {
			in := false
			for _, cl := range p.clusters {
				in = in || cl == o.Cluster
			}
			if in && p.sel.match(o.Labels) {
				want = append(want, o.id())
			}
		}
		if d := bagDiff(l.IDs, want); d != "" {
			bad("selector", "the selector passed on selects other objects: "+d)
		}
		if len(want) > 0 {
			c.Count("selectors_judged", 1)
		}
		c.Count("ran_get", 1)
	case "create":
		i := len(argv) - 1
		// the field manager is the option which is not the user's
		fm, at := "", -1
		for j := 0; j < i+1; j++ {
			if argv[j] == "--" {
				break
			}
			if strings.HasPrefix(argv[j], "--field-manager=") {
				fm, at = argv[j][len("--field-manager="):], j
				continue
			}
			if argv[j] == "--field-manager" && j+1 < len(argv) {
				fm, at = argv[j+1], j
				j++
			}
		}
		if at < 0 {
			bad("args", "kubectl got no field manager")
			return
		}
		rest := append([]string{}, argv[:at]...)
		if argv[at] == "--field-manager" {
			at++
		}
		rest = append(rest, argv[at+1:]...)
		if strings.Join(rest, "\x00") != strings.Join(p.keep, "\x00") {
			bad("args", fmt.Sprintf("other arguments changed: %q, wanted %q", rest, p.keep))
		}
		w.contacts()
		r := do(w.Router, "POST", "/api/v1/namespaces/default/secrets?fieldManager="+url.QueryEscape(fm), nil, []byte(`{}`))
		seen := w.contacts()
		if _, known := w.Ups[p.clusters[0]]; known {
			if len(seen) != 1 || len(seen[p.clusters[0]]) != 1 {
				bad("create", fmt.Sprintf("with this field manager the creation went elsewhere (%d clusters, status %d)", len(seen), r.Status))
			}
		} else if len(seen) != 0 {
			bad("create", "the creation for an unknown cluster went to a cluster")
		}
		c.Count("ran_create", 1)
	}
}

// c26missing runs the plugin without any kubectl, and with one that can not run.
func c26missing(c *Ctx) {
	for i, prep := range []func(dir string){
		func(string) {},
		func(dir string) { _ = os.WriteFile(filepath.Join(dir, "kubectl"), []byte("x"), 0o644) },
		func(dir string) { _ = os.WriteFile(filepath.Join(dir, "kubectl"), []byte("#!/nonexistent\n"), 0o755) },
	} {
		dir := filepath.Join(c.Tmp, fmt.Sprintf("nokubectl%d", i))
		_ = os.MkdirAll(dir, 0o755)
		prep(dir)
		_, e, code := c26run(c, dir, []string{"get", "pods", "--clusters", "c1"}, c26env(dir, dir), nil)
		if code <= 0 || len(e) == 0 {
			c.Violate("nokubectl", fmt.Sprintf("without a working kubectl the plugin exits with %d and says %q", code, e), nil)
		}
		c.Eval(fmt.Sprintf("no kubectl %d", i))
	}
}
