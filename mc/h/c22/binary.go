package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"kverif/lib"
)

// histories for the real program: contents by name, each followed by a trigger.
var real = [][]string{
	{"v1", "hup", "invalid section", "hup", "v2", "hup"},
	{"v1", "api", "invalid section", "api", "invalid section", "api", "v2", "api"},
	{"missing", "api", "v1", "api", "directory", "api", "v2", "hup"},
	{"v2", "watch", "binary", "watch", "nosection", "watch"},
	{"v3", "hup", "null section", "api", "unknown field", "hup", "v1 in other words", "hup"},
	{"cache only", "api", "empty", "watch", "v1", "watch"},
	{"empty section", "watch", "v2", "api", "missing", "watch", "v0", "hup"},
	{"v2", "hup", "v1", "hup", "v2", "hup", "late error", "hup", "nosection", "hup"},
}

type realRep struct {
	Real int `json:"real"`
}

func binary(c *lib.Check, p *lib.Part) {
	for i, h := range real {
		if c.Replay != nil {
			r := realRep{-1}
			if json.Unmarshal(c.Replay, &r); r.Real != i || !bytes.Contains(c.Replay, []byte("real")) {
				continue
			}
		} else if i%c.Of != c.Shard {
			continue
		}
		lib.Doing(fmt.Sprint("real program ", h))
		w := ""
		for k := 0; k < 3; k++ { // it must fail every time
			if w = runReal(p, h); w == "" {
				break
			}
		}
		if w != "" {
			p.Fail(fmt.Sprint("real:", i), "real program, "+strings.Join(h, ", ")+": "+w, realRep{i})
		}
		p.Traces++
		p.Scenarios["real program"]++
	}
}

func free() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func runReal(p *lib.Part, h []string) string {
	d, err := os.MkdirTemp(dir, "real")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	for try := 0; try < 5; try++ {
		port := free()
		f := filepath.Join(d, "k.yml")
		write := func(ct content) {
			text := strings.Replace(ct.text, "port: 9\n", fmt.Sprintf("port: %d\n", port), 1)
			os.RemoveAll(f)
			switch ct.kind {
			case 'm':
			case 'd':
				_ = os.Mkdir(f, 0o700)
			default: // at once
				_ = os.WriteFile(f+".new", []byte(text), 0o600)
				_ = os.Rename(f+".new", f)
			}
		}
		write(contents[0])
		watch := strings.Contains(strings.Join(h, " "), "watch")
		args := []string{"-config.file", f}
		if watch {
			args = append(args, "-config.auto-reload", "-config.watch-interval", "50ms")
		}
		cmd := exec.Command(os.Getenv("KV_KACHE"), args...)
		cmd.Dir = d
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		up := false
		for i := 0; i < 400 && !up; i++ {
			if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
				c.Close()
				up = true
			} else {
				select {
				case <-done:
					i = 1000
				case <-time.After(25 * time.Millisecond):
				}
			}
		}
		w := ""
		if up {
			w = history(p, h, port, cmd.Process, write, watch)
			select {
			case err := <-done:
				if w == "" {
					w = "the program ended"
				}
				w += fmt.Sprintf(" (%v)\n%s", err, out.String())
				return w
			default:
			}
		}
		_ = cmd.Process.Kill()
		if up {
			<-done
			return w
		}
	}
	return ""
}

func history(p *lib.Part, h []string, port int, pr *os.Process, write func(content), watch bool) string {
	cl := http.Client{Timeout: 20 * time.Second}
	do := func(m, path string) (int, string) {
		q, _ := http.NewRequest(m, fmt.Sprintf("http://127.0.0.1:%d%s", port, path), nil)
		res, err := cl.Do(q)
		if err != nil {
			return 0, err.Error()
		}
		defer res.Body.Close()
		b, _ := io.ReadAll(res.Body)
		return res.StatusCode, string(b)
	}
	show := func() (g set, err string) {
		code, b := do("GET", "/api/cache/config")
		var m struct {
			Strict   bool   `json:"strict"`
			X        bool   `json:"x_header"`
			Name     string `json:"x_header_name"`
			TTL      string `json:"default_ttl"`
			CC       string `json:"default_cache_control"`
			Force    bool   `json:"force_cache_control"`
			Timeouts []any  `json:"timeouts"`
			Exclude  any    `json:"exclude"`
		}
		if e := json.Unmarshal([]byte(b), &m); e != nil || code != 200 {
			return g, fmt.Sprintf("configuration request: %d %s", code, b)
		}
		return set{m.Strict, m.X, m.Name, m.TTL, m.CC, m.Force, len(m.Timeouts), m.Exclude != nil}, ""
	}
	// the signal handler is installed before the API starts; leave it a moment
	time.Sleep(150 * time.Millisecond)
	want := *contents[0].want
	for i := 0; i+1 < len(h); i += 2 {
		ct := contents[ix(h[i])]
		write(ct)
		if ct.want != nil {
			want = *ct.want
		}
		p.Ops++
		switch h[i+1] {
		case "api":
			code, b := do("POST", "/api/cache/config/reload")
			if code == 0 || !watch && (code == 200) != (ct.want != nil) {
				return fmt.Sprintf("step %d: reload of %q answers %d %s", i/2+1, ct.name, code, b)
			}
		case "hup":
			_ = pr.Signal(syscall.SIGHUP)
		}
		if ct.want == nil {
			time.Sleep(200 * time.Millisecond)
		}
		var g set
		var e string
		for k := 0; k < 400; k++ { // until it took effect
			if g, e = show(); e == "" && g == want {
				break
			}
			if e != "" && k > 20 {
				break
			}
			time.Sleep(25 * time.Millisecond)
		}
		if e != "" || g != want {
			return fmt.Sprintf("step %d (%s, %s): configuration in force %+v %s, expected %+v", i/2+1, h[i], h[i+1], g, e, want)
		}
	}
	return ""
}
