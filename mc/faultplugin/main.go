// Command faultplugin is a plugin that misbehaves as its script says
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Life is what happens during the life of one process
type Life struct {
	Start    string
	Requests []string // what happens at each request, the last one is repeated
	End      string
}

func fatal(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	me := os.Args[0]
	if len(os.Args) > 1 && os.Args[1] == `grandchild` {
		// inherits what the plugin has
		signal.Ignore(os.Interrupt)
		for i := 0; i < 600; i++ {
			if _, err := os.Stat(os.Args[2]); err == nil {
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
		return
	}
	// Which life is this?
	n := 0
	for ; ; n++ {
		f, err := os.OpenFile(fmt.Sprintf(`%s.start%d`, me, n), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
		if err == nil {
			_, err = fmt.Fprintln(f, os.Getpid())
			fatal(err)
			fatal(f.Close())
			break
		}
		if !os.IsExist(err) {
			panic(err)
		}
	}
	bs, err := ioutil.ReadFile(me + `.script`)
	fatal(err)
	var lives []Life
	fatal(json.Unmarshal(bs, &lives))
	if n >= len(lives) {
		n = len(lives) - 1
	}
	live(me, lives[n])
}

var forever = make(chan bool)

func live(me string, l Life) {
	switch {
	case l.End == `grandchild`:
		c := exec.Command(me, `grandchild`, me+`.stop`)
		c.Stdout = os.Stdout
		c.Stderr = os.Stderr
		fatal(c.Start())
	}
	sig := make(chan os.Signal, 10)
	signal.Notify(sig, os.Interrupt)
	go func() {
		for range sig {
			switch l.End {
			case `ignore`:
			case `slow`:
				time.Sleep(time.Second)
				os.Exit(0)
			case `stop`:
				fatal(syscall.Kill(os.Getpid(), syscall.SIGSTOP))
			case `close`:
				os.Stdout.Close()
				os.Stderr.Close()
			case `chatty`:
				fmt.Fprintln(os.Stderr, strings.Repeat(`bye `, 100000))
				fmt.Fprintln(os.Stdout, strings.Repeat(`bye `, 100000))
				os.Exit(0)
			case `status`:
				os.Exit(3)
			case `abort`:
				fatal(syscall.Kill(os.Getpid(), syscall.SIGKILL))
			default:
				os.Exit(0)
			}
		}
	}()
	network := os.Getenv(`HIERA_PLUGIN_TRANSPORT`)
	var ln net.Listener
	var err error
	if network == `unix` {
		ln, err = net.Listen(`unix`, fmt.Sprintf(`%s/%d.socket`, os.Getenv(`HIERA_PLUGIN_SOCKET_DIR`), os.Getpid()))
	} else {
		ln, err = net.Listen(`tcp`, `127.0.0.1:0`)
	}
	fatal(err)
	meta := map[string]interface{}{`version`: 1, `network`: network, `address`: ln.Addr().String(), `functions`: map[string]interface{}{
		`lookup_key`: []string{`x_lk`}, `data_dig`: []string{`x_dd`}, `data_hash`: []string{`x_dh`}}}
	out := func() string {
		bs, err := json.Marshal(meta)
		fatal(err)
		return string(bs) + "\n"
	}
	write := func(s string) {
		_, _ = os.Stdout.WriteString(s)
	}
	functions := meta[`functions`].(map[string]interface{})
	// The names of the starts that are as they should be begin with ok
	switch l.Start {
	case `ok`:
		write(out())
	case `ok chatty`:
		fmt.Fprintln(os.Stderr, strings.Repeat(`x`, 200000))
		write(out())
		go func() {
			for {
				if _, err := os.Stdout.WriteString(strings.Repeat(`noise `, 10000)); err != nil {
					return
				}
				if _, err := os.Stderr.WriteString("a\nb"); err != nil {
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
	case `ok more`:
		write(out() + `{"version": 17}` + "\n}}}garbage")
	case `ok slow`:
		for _, r := range out() {
			write(string(r))
			time.Sleep(5 * time.Millisecond)
		}
	case `ok closes stdout`:
		write(out())
		os.Stdout.Close()
	case `ok closes stderr`:
		os.Stderr.Close()
		write(out())
	case `ok other kinds`:
		functions[`other`] = []string{`x_other`}
		functions[`none`] = []string{}
		meta[`unknown`] = map[string]interface{}{`a`: 1}
		write(out())
	case `ok no network`: // tcp is assumed
		ln.Close()
		ln, err = net.Listen(`tcp`, `127.0.0.1:0`)
		fatal(err)
		meta[`address`] = ln.Addr().String()
		delete(meta, `network`)
		write(out())
	case `exit 0`:
		os.Exit(0)
	case `exit 1`:
		fmt.Fprintln(os.Stderr, `sorry`)
		os.Exit(1)
	case `killed`:
		fatal(syscall.Kill(os.Getpid(), syscall.SIGKILL))
		<-forever
	case `partial and exit`:
		s := out()
		write(s[:len(s)/2])
		os.Exit(0)
	case `partial and hang`:
		s := out()
		write(s[:len(s)/2])
		<-forever
	case `hang`:
		<-forever
	case `stopped`:
		fatal(syscall.Kill(os.Getpid(), syscall.SIGSTOP))
	case `closes stdout`:
		os.Stdout.Close()
		<-forever
	case `closes both`:
		os.Stdout.Close()
		os.Stderr.Close()
		<-forever
	case `endless`:
		for {
			if _, err := os.Stdout.WriteString(strings.Repeat(` `, 1000)); err != nil {
				return
			}
			time.Sleep(time.Millisecond)
		}
	case `endless string`:
		write(`{"version": "`)
		for {
			if _, err := os.Stdout.WriteString(strings.Repeat(`x`, 1000)); err != nil {
				return
			}
			time.Sleep(time.Millisecond)
		}
	case `then exits`:
		write(out())
		os.Exit(0)
	case `then stops`:
		write(out())
		fatal(syscall.Kill(os.Getpid(), syscall.SIGSTOP))
	case `closes listener`:
		ln.Close()
		write(out())
		<-forever
	case `not listening`:
		meta[`address`] = `/nonexistent/socket`
		if network != `unix` {
			meta[`address`] = `127.0.0.1:1`
		}
		write(out())
	case `never accepts`:
		write(out())
		<-forever
	default:
		if strings.HasPrefix(l.Start, `says `) {
			write(l.Start[5:] + "\n")
			break
		}
		// key=JSON alters the metadata
		i := strings.IndexByte(l.Start, '=')
		if i < 0 {
			panic(l.Start)
		}
		if v := l.Start[i+1:]; v == `` {
			delete(meta, l.Start[:i])
		} else {
			meta[l.Start[:i]] = json.RawMessage(v)
		}
		write(out())
	}
	serve(ln, l)
}

func serve(ln net.Listener, l Life) {
	var lock sync.Mutex
	n := 0
	h := func(w http.ResponseWriter, r *http.Request) {
		if k := r.URL.Query().Get(`key`); k == `lookup_options` || k == `["lookup_options"]` {
			http.Error(w, `404 value not found`, http.StatusNotFound)
			return
		}
		m := fmt.Sprintf(`{"pid":%d}`, os.Getpid())
		if strings.HasPrefix(r.URL.Path, `/redirected/data_hash/`) || strings.HasPrefix(r.URL.Path, `/data_hash/`) {
			m = `{"a::v":` + m + `,"b::v":` + m + `}`
		}
		if r.URL.Path == `/loop` {
			http.Redirect(w, r, `/loop`, http.StatusFound)
			return
		}
		if strings.HasPrefix(r.URL.Path, `/redirected/`) {
			_, _ = w.Write([]byte(m))
			return
		}
		lock.Lock()
		i := n
		n++
		lock.Unlock()
		what := `ok`
		if len(l.Requests) > 0 {
			if i >= len(l.Requests) {
				i = len(l.Requests) - 1
			}
			what = l.Requests[i]
		}
		raw := func(s string, rest func(c net.Conn)) {
			c, b, err := w.(http.Hijacker).Hijack()
			fatal(err)
			_, _ = b.WriteString(s)
			_ = b.Flush()
			if rest != nil {
				rest(c)
			}
			c.Close()
		}
		switch what {
		case `ok`:
			_, _ = w.Write([]byte(m))
		case `ok slow`:
			for _, c := range m {
				_, _ = w.Write([]byte(string(c)))
				w.(http.Flusher).Flush()
				time.Sleep(10 * time.Millisecond)
			}
		case `ok large`:
			_, _ = w.Write([]byte(strings.Repeat(" \n", 1000000) + m))
		case `ok and exit`:
			raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(m), m), nil)
			os.Exit(0)
		case `ok and noise`:
			fmt.Fprintln(os.Stderr, strings.Repeat(`e`, 300000))
			fmt.Fprint(os.Stdout, strings.Repeat(`o`, 300000))
			_, _ = w.Write([]byte(m))
		case `404`:
			http.Error(w, `404 value not found`, http.StatusNotFound)
		case `invalid`:
			_, _ = w.Write([]byte(`{"pid":`))
		case `empty`:
		case `text`:
			_, _ = w.Write([]byte("<html>no</html>\n"))
		case `truncated`:
			raw("HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n"+m, nil)
		case `truncated chunk`:
			raw("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1000\r\n"+m, nil)
		case `500`:
			http.Error(w, `plugin says no`, http.StatusInternalServerError)
		case `500 empty`:
			w.WriteHeader(http.StatusInternalServerError)
		case `500 truncated`:
			raw("HTTP/1.1 500 Oops\r\nContent-Length: 1000\r\n\r\nplugin says no", nil)
		case `400`:
			http.Error(w, `bad`, http.StatusBadRequest)
		case `503`:
			http.Error(w, `later`, http.StatusServiceUnavailable)
		case `ok redirect`:
			u := *r.URL
			u.Path = `/redirected` + u.Path
			http.Redirect(w, r, u.String(), http.StatusFound)
		case `redirect loop`:
			http.Redirect(w, r, `/loop`, http.StatusFound)
		case `closed`:
			raw(``, nil)
		case `reset`:
			raw(``, func(c net.Conn) {
				if t, ok := c.(*net.TCPConn); ok {
					_ = t.SetLinger(0)
				}
			})
		case `garbage`:
			raw("\x00\x01\x02 not http\r\n\r\n", nil)
		case `header`:
			raw("HTTP/1.1 200 OK\r\nContent-Le", nil)
		case `hang`:
			<-forever
		case `hang in header`:
			raw("HTTP/1.1 200 OK\r\nContent-Le", func(net.Conn) { <-forever })
		case `hang in body`:
			raw("HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n"+m, func(net.Conn) { <-forever })
		case `endless body`:
			for {
				if _, err := w.Write([]byte(` `)); err != nil {
					return
				}
				w.(http.Flusher).Flush()
				time.Sleep(20 * time.Millisecond)
			}
		case `exit`:
			os.Exit(1)
		case `abort`:
			fatal(syscall.Kill(os.Getpid(), syscall.SIGKILL))
		case `stop`:
			fatal(syscall.Kill(os.Getpid(), syscall.SIGSTOP))
		case `close listener`:
			ln.Close()
			_, _ = w.Write([]byte(m))
		default:
			panic(what)
		}
	}
	_ = http.Serve(ln, http.HandlerFunc(h))
	<-forever
}
