package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"sigs.k8s.io/yaml"
)

// Daemon is a running cacheproxy with files of its own.
type Daemon struct {
	Dir, Config, Kube string
	Addr              string
	cmd               *exec.Cmd
	out               *os.File
	exited            chan struct{}
	cli               *http.Client
	mu                sync.Mutex
}

type kctx struct {
	Name string
	URL  string
	CA   []byte
	// User is how the user of the context authenticates; by a token if nil.
	User map[string]interface{}
}

// credentials of a context: what the kubeconfig says, and the header requests get from it.
func credentials(name string, gen int) (map[string]interface{}, string) {
	if gen%3 == 2 {
		u, p := fmt.Sprintf("cred-%s", name), fmt.Sprintf("%d", gen)
		return map[string]interface{}{"username": u, "password": p}, "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
	}
	t := fmt.Sprintf("cred-%s-%d", name, gen)
	return map[string]interface{}{"token": t}, "Bearer " + t
}

func kubeYAML(ctxs []kctx, current string, asJSON bool) []byte {
	m := map[string]interface{}{"apiVersion": "v1", "kind": "Config", "current-context": current}
	var cl, us, cx []interface{}
	for i, k := range ctxs {
		cn, un := fmt.Sprintf("cluster-%d", i), fmt.Sprintf("user-%d", i)
		c := map[string]interface{}{"server": k.URL}
		if k.CA != nil {
			c["certificate-authority-data"] = k.CA
		}
		u := k.User
		if u == nil {
			u, _ = credentials(k.Name, 0)
		}
		cl = append(cl, map[string]interface{}{"name": cn, "cluster": c})
		us = append(us, map[string]interface{}{"name": un, "user": u})
		cx = append(cx, map[string]interface{}{"name": k.Name, "context": map[string]interface{}{"cluster": cn, "user": un}})
	}
	m["clusters"], m["users"], m["contexts"] = cl, us, cx
	b, _ := json.MarshalIndent(m, "", "  ") // JSON is YAML
	if asJSON {
		return b
	}
	y, err := yaml.JSONToYAML(b)
	if err != nil {
		panic(err)
	}
	return y
}

func configJSON(defs []*gvrDef, token string, defaultCluster ...string) []byte {
	var ps []interface{}
	for _, d := range defs {
		ps = append(ps, map[string]interface{}{"group": d.G, "version": d.V, "resource": d.R, "list_kind": d.listKind(), "index": d.indexConf()})
	}
	m := map[string]interface{}{"proxies": ps, "token": token}
	for _, dc := range defaultCluster {
		if dc != "" {
			m["default_cluster"] = dc
		}
	}
	b, _ := json.MarshalIndent(m, "", "  ")
	return b
}

var freed sync.Map

// freeAddr is an address nobody else gets: below the ports connections and listeners are given by the system.
func freeAddr() string {
	for i := 0; i < 10000; i++ {
		addr := fmt.Sprintf("127.0.0.1:%d", 12000+rand.Intn(20000))
		if _, used := freed.LoadOrStore(addr, true); used {
			continue
		}
		if ln, err := net.Listen("tcp", addr); err == nil {
			_ = ln.Close()
			return addr
		}
	}
	panic("no free port")
}

// startDaemon runs the cacheproxy binary with the given files; kube "" uses the default path in its home.
func startDaemon(dir, config, kube string, env ...string) (*Daemon, error) {
	d := &Daemon{Dir: dir, Config: config, Kube: kube, Addr: freeAddr(), exited: make(chan struct{}), cli: &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 20}}}
	args := []string{"-a", d.Addr, "-c", config}
	if kube != "" {
		args = append(args, "-k", kube)
	}
	bin := filepath.Join(os.Getenv("VERIF_BUILD"), "cacheproxy")
	if _, err := os.Stat(bin); err != nil {
		return nil, err
	}
	d.cmd = exec.Command(bin, args...)
	d.cmd.Dir = dir
	d.cmd.Env = append([]string{"HOME=" + dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir, "GOTRACEBACK=all"}, env...)
	d.out, _ = os.Create(filepath.Join(dir, "daemon.log"))
	d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
	if err := d.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { _ = d.cmd.Wait(); close(d.exited) }()
	return d, nil
}

func (d *Daemon) Log() string {
	b, _ := os.ReadFile(filepath.Join(d.Dir, "daemon.log"))
	return string(b)
}

func (d *Daemon) Alive() bool {
	select {
	case <-d.exited:
		return false
	default:
		return true
	}
}

// Ready waits for the daemon to serve.
func (d *Daemon) Ready(limit time.Duration) error {
	deadline := time.Now().Add(limit)
	for time.Now().Before(deadline) {
		if !d.Alive() {
			l := d.Log()
			if len(l) > 3000 {
				l = l[len(l)-3000:]
			}
			return fmt.Errorf("the daemon ended: %s", l)
		}
		if r := d.Get("/healthy"); r.Status == 200 {
			return nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return fmt.Errorf("the daemon does not serve after %s", limit)
}

func (d *Daemon) Stop() {
	if d.cmd != nil && d.cmd.Process != nil {
		_ = d.cmd.Process.Kill()
		<-d.exited
	}
	_ = d.out.Close()
}

func (d *Daemon) Do(method, target string, h map[string]string, body []byte) *Resp {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, "http://"+d.Addr+target, rd)
	if err != nil {
		return &Resp{Aborted: err.Error()}
	}
	for k, v := range h {
		req.Header.Set(k, v)
	}
	resp, err := d.cli.Do(req)
	if err != nil {
		return &Resp{Aborted: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return &Resp{Aborted: err.Error()}
	}
	return &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b}
}

func (d *Daemon) Get(target string) *Resp { return d.Do("GET", target, nil, nil) }

// metrics returns the samples of a metric by their label text.
func (d *Daemon) metrics(name string) (map[string]float64, error) {
	r := d.Get("/metrics")
	if r.Status != 200 {
		return nil, fmt.Errorf("metrics: %d %s", r.Status, r.Aborted)
	}
	res := map[string]float64{}
	for _, l := range strings.Split(string(r.Body), "\n") {
		if !strings.HasPrefix(l, name+"{") {
			continue
		}
		i := strings.LastIndex(l, " ")
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err != nil {
			return nil, err
		}
		res[l[len(name):i]] = v
	}
	return res, nil
}

func (d *Daemon) reloads(status string) float64 {
	m, err := d.metrics("ckube_reload_config_total")
	if err != nil {
		return -1
	}
	return m[`{status="`+status+`"}`]
}

// ways of changing a file

func writeInPlace(path string, b []byte) error { return os.WriteFile(path, b, 0o644) }

func replaceByRename(path string, b []byte) error {
	if err := os.WriteFile(path+".new", b, 0o644); err != nil {
		return err
	}
	return os.Rename(path+".new", path)
}

func removeAndCreate(path string, b []byte) error {
	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
		return err
	}
	time.Sleep(50 * time.Millisecond)
	return os.WriteFile(path, b, 0o644)
}

// mountedFile is a file of a mounted ConfigMap: dir/name -> ..data/name, ..data -> a directory that is swapped.
func mountConfigMap(dir, name string, b []byte) error {
	gen := fmt.Sprintf("..gen-%d", time.Now().UnixNano())
	if err := os.MkdirAll(filepath.Join(dir, gen), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, gen, name), b, 0o644); err != nil {
		return err
	}
	data := filepath.Join(dir, "..data")
	old, _ := os.Readlink(data)
	if err := os.Symlink(gen, data+"_tmp"); err != nil {
		return err
	}
	if err := os.Rename(data+"_tmp", data); err != nil {
		return err
	}
	if _, err := os.Lstat(filepath.Join(dir, name)); err != nil {
		if err := os.Symlink("..data/"+name, filepath.Join(dir, name)); err != nil {
			return err
		}
	}
	if old != "" {
		return os.RemoveAll(filepath.Join(dir, old))
	}
	return nil
}
