package props

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/runner"
)

// C23: the REST server is started with all combinations of its flags for TLS, and each server is contacted by clients of all
// kinds.

type c23Case struct {
	Cert   string
	Key    string
	CA     string
	Verify string `json:",omitempty"`
	Listen string `json:",omitempty"`
}

var (
	c23Certs  = []string{``, `server`, `chain`, `other`, `missing`, `garbage`, `empty`, `directory`, `server.key`}
	c23Keys   = []string{``, `server`, `chain`, `other`, `missing`, `garbage`, `empty`, `directory`, `server.crt`}
	c23CAs    = []string{``, `ca1`, `ca2`, `both`, `surrounded`, `missing`, `garbage`, `empty`, `directory`, `key`}
	c23Verify = []string{``, `true`, `false`, `maybe`}
	c23Listen = []string{`used`, `text`, `port-1`, `port70000`, `porttext`, `foreign`, `any`}
)

// c23Matching are the certificates that a key belongs to
var c23Matching = map[string]bool{`server`: true, `chain`: true, `other`: true}

var c23GoodCA = map[string][]string{`ca1`: {`ca1`}, `ca2`: {`ca2`}, `both`: {`ca1`, `ca2`}, `surrounded`: {`ca1`}}

// c23Clients are the names of clients. Those with an issuer have a certificate that is valid when the issuer is trusted
var c23Clients = []struct {
	name, issuer string
}{
	{`plain`, ``}, {`none`, ``}, {`c1`, `ca1`}, {`c2`, `ca2`}, {`sys`, `sys`}, {`expired`, ``}, {`future`, ``}, {`serverauth`, ``}, {`self`, ``},
	{`inter`, `ca1`}, {`incomplete`, ``}, {`forged`, ``},
}

func c23Enum(tier string, yield func(interface{}) bool) {
	product(func(ix []int) bool {
		c := c23Case{Cert: c23Certs[ix[0]], Key: c23Keys[ix[1]], CA: c23CAs[ix[2]], Verify: c23Verify[ix[3]]}
		if c.Cert == `` && c.Key == `` && c.Verify != `true` && c.CA != `` {
			return true // an authority that nothing needs. Not judged
		}
		return yield(c)
	}, len(c23Certs), len(c23Keys), len(c23CAs), len(c23Verify))
	for _, l := range c23Listen {
		for _, tls := range []string{``, `server`} {
			if !yield(c23Case{Cert: tls, Key: tls, Listen: l}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- certificates

type c23Entity struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	der  []byte
}

var c23Serial int64

func c23Issue(name string, by *c23Entity, edit func(*x509.Certificate)) *c23Entity {
	c23Serial++
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(c23Serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
	if edit != nil {
		edit(t)
	}
	e := &c23Entity{cert: t, key: key}
	parent, signer := t, key
	if by != nil {
		parent, signer = by.cert, by.key
	}
	e.der, err = x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, signer)
	must(err)
	e.cert, err = x509.ParseCertificate(e.der)
	must(err)
	return e
}

func (e *c23Entity) pem() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: `CERTIFICATE`, Bytes: e.der})
}

func (e *c23Entity) keyPem() []byte {
	der, err := x509.MarshalECPrivateKey(e.key)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: `EC PRIVATE KEY`, Bytes: der})
}

func c23Prepare(dir string) []string {
	exe := dir + `/server`
	goBuild(dir, exe, `github.com/lyraproj/hiera/hieraserver/rest`)
	d := dir + `/tls`
	must(os.MkdirAll(d+`/directory`, 0755))
	must(os.MkdirAll(d+`/nothing`, 0755))
	write := func(name string, bs ...[]byte) { must(os.WriteFile(d+`/`+name, bytes.Join(bs, nil), 0644)) }
	ca := func(t *x509.Certificate) {
		t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature, nil
	}
	server := func(t *x509.Certificate) {
		t.ExtKeyUsage, t.DNSNames = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, []string{`hiera.example`}
	}
	ca1, ca2, sys, root := c23Issue(`ca1`, nil, ca), c23Issue(`ca2`, nil, ca), c23Issue(`sys`, nil, ca), c23Issue(`root`, nil, ca)
	fake := c23Issue(`ca1`, nil, ca)
	inter1, interS := c23Issue(`inter1`, ca1, ca), c23Issue(`interS`, root, ca)
	leaf, chain, other := c23Issue(`server`, root, server), c23Issue(`chain`, interS, server), c23Issue(`other`, root, server)
	write(`root.pem`, root.pem())
	write(`sys.pem`, sys.pem())
	for n, e := range map[string]*c23Entity{`server`: leaf, `chain`: chain, `other`: other} {
		write(n+`.leaf`, e.pem())
		write(n+`.key`, e.keyPem())
		if n == `chain` {
			write(n+`.crt`, e.pem(), interS.pem())
		} else {
			write(n+`.crt`, e.pem())
		}
	}
	write(`ca1.pem`, ca1.pem())
	write(`ca2.pem`, ca2.pem())
	write(`both.pem`, ca1.pem(), ca2.pem())
	write(`surrounded.pem`, []byte("# ca1\n"), ca1.pem(), []byte("\n# end\n"))
	write(`key.pem`, ca1.keyPem())
	write(`garbage`, []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"))
	write(`empty`)
	for n, es := range map[string][]*c23Entity{
		`c1`: {c23Issue(`c1`, ca1, nil)}, `c2`: {c23Issue(`c2`, ca2, nil)}, `sys`: {c23Issue(`s1`, sys, nil)},
		`expired`:    {c23Issue(`c1`, ca1, func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Hour) })},
		`future`:     {c23Issue(`c1`, ca1, func(t *x509.Certificate) { t.NotBefore = time.Now().Add(48 * time.Hour) })},
		`serverauth`: {c23Issue(`c1`, ca1, server)},
		`self`:       {c23Issue(`c1`, nil, nil)},
		`inter`:      {c23Issue(`c1`, inter1, nil), inter1},
		`incomplete`: {c23Issue(`c1`, inter1, nil)},
		`forged`:     {c23Issue(`c1`, fake, nil)},
	} {
		var bs []byte
		for _, e := range es {
			bs = append(bs, e.pem()...)
		}
		write(`client-`+n+`.crt`, bs)
		write(`client-`+n+`.key`, es[0].keyPem())
	}
	write(`hiera.yaml`, []byte(`{version: 5, hierarchy: [{name: d, path: d.yaml}]}`))
	must(os.MkdirAll(d+`/data`, 0755))
	write(`data/d.yaml`, []byte(`k: {v: zqdata}`))
	return []string{`VERIF_C23_SERVER=` + exe, `VERIF_C23_DIR=` + d}
}

// ---------------------------------------------------------------- the check

var c23Dir, c23Exe string
var c23Config map[string]*tls.Config
var c23Leaf map[string][]byte

func c23Setup(w *runner.W) {
	setupFS(w)
	c23Dir, c23Exe = os.Getenv(`VERIF_C23_DIR`), os.Getenv(`VERIF_C23_SERVER`)
	read := func(n string) []byte {
		bs, err := os.ReadFile(filepath.Join(c23Dir, n))
		must(err)
		return bs
	}
	c23Config, c23Leaf = map[string]*tls.Config{}, map[string][]byte{}
	for _, c := range c23Clients {
		if c.name == `plain` {
			continue
		}
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(read(`root.pem`))
		conf := &tls.Config{RootCAs: pool, ServerName: `hiera.example`}
		if c.name != `none` {
			crt, err := tls.X509KeyPair(read(`client-`+c.name+`.crt`), read(`client-`+c.name+`.key`))
			must(err)
			conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &crt, nil }
		}
		c23Config[c.name] = conf
	}
	for n := range c23Matching {
		b, _ := pem.Decode(read(n + `.leaf`))
		c23Leaf[n] = b.Bytes
	}
}

func (c *c23Case) file(dir, n string, suffixes ...string) string {
	switch {
	case n == `missing`, n == `garbage`, n == `empty`, n == `directory`, strings.Contains(n, `.`):
		return filepath.Join(dir, n)
	}
	return filepath.Join(dir, n+suffixes[0])
}

func (c *c23Case) args(ip, port string) []string {
	a := []string{`--addr`, ip, `--port`, port, `--config`, c23Dir + `/hiera.yaml`}
	if c.Cert != `` {
		a = append(a, `--ssl-cert`, c.file(c23Dir, c.Cert, `.crt`))
	}
	if c.Key != `` {
		a = append(a, `--ssl-key`, c.file(c23Dir, c.Key, `.key`))
	}
	if c.CA != `` {
		a = append(a, `--ca`, c.file(c23Dir, c.CA, `.pem`))
	}
	if c.Verify != `` {
		a = append(a, `--clientCertVerify=`+c.Verify)
	}
	return a
}

// valid is true if the server can do what the flags say
func (c *c23Case) valid() bool {
	switch {
	case c.Verify == `maybe`:
		return false
	case c.Cert == `` && c.Key == ``:
		return c.Verify != `true`
	case c.Cert != c.Key || !c23Matching[c.Cert]:
		return false
	case c.CA != ``:
		return c23GoodCA[c.CA] != nil
	}
	return true
}

// admits is true if the client must be answered
func (c *c23Case) admits(client int) bool {
	cl := c23Clients[client]
	if c.Cert == `` {
		return cl.name == `plain`
	}
	if cl.name == `plain` {
		return false
	}
	if c.Verify != `true` {
		return true
	}
	trusted := c23GoodCA[c.CA]
	if c.CA == `` {
		trusted = []string{`sys`}
	}
	for _, t := range trusted {
		if cl.issuer == t {
			return true
		}
	}
	return false
}

var c23Port = 20000

func c23Start(args []string, addr string) *c16Process {
	p := &c16Process{addr: addr, cmd: exec.Command(c23Exe, args...), out: &bytes.Buffer{}, done: make(chan bool)}
	p.cmd.Env = append(os.Environ(), `SSL_CERT_FILE=`+c23Dir+`/sys.pem`, `SSL_CERT_DIR=`+c23Dir+`/nothing`)
	p.cmd.Stdout = p.out
	p.cmd.Stderr = p.out
	must(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		close(p.done)
	}()
	for i := 0; i < 6000; i++ {
		if c, err := net.DialTimeout(`tcp`, addr, 5*time.Second); err == nil {
			_ = c.Close()
			// give a server that ends nevertheless a chance to do so
			select {
			case <-p.done:
			case <-time.After(20 * time.Millisecond):
			}
			return p
		}
		select {
		case <-p.done:
			return p
		case <-time.After(5 * time.Millisecond):
		}
	}
	return p
}

// c23Get performs a request. The answer is the status and the body, or empty when there's no answer
func c23Get(client int, addr string, h2 bool) (answer string, leaf []byte, err error) {
	cl := c23Clients[client]
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	url := `http://` + addr
	if cl.name != `plain` {
		url = `https://` + addr
		tr.TLSClientConfig = c23Config[cl.name].Clone()
		tr.ForceAttemptHTTP2 = h2
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	rq, err := http.NewRequestWithContext(ctx, http.MethodGet, url+`/lookup/k.v`, nil)
	must(err)
	rs, err := (&http.Client{Transport: tr}).Do(rq)
	if err != nil {
		return ``, nil, err
	}
	defer func() { _ = rs.Body.Close() }()
	bs, err := io.ReadAll(rs.Body)
	if rs.TLS != nil && len(rs.TLS.PeerCertificates) > 0 {
		leaf = rs.TLS.PeerCertificates[0].Raw
	}
	return fmt.Sprintf(`%d %s`, rs.StatusCode, bs), leaf, err
}

const c23Answer = "200 \"zqdata\"\n"

func c23Check(w *runner.W, ci interface{}) {
	c := ci.(c23Case)
	pid := os.Getpid()
	ip := fmt.Sprintf(`127.%d.%d.%d`, 1+pid>>16&0x7f, pid>>8&0xff, pid&0xff)
	elsewhere := fmt.Sprintf(`127.255.%d.%d`, pid>>8&0xff, pid&0xff)
	c23Port++
	if c23Port > 60000 {
		c23Port = 20001
	}
	port := fmt.Sprint(c23Port)
	valid := c.valid()
	lip, lport := ip, port
	switch c.Listen {
	case ``:
	case `used`:
		l, err := net.Listen(`tcp`, ip+`:`+port)
		must(err)
		done := make(chan bool)
		go func() {
			defer close(done)
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				_ = conn.Close()
			}
		}()
		defer func() {
			_ = l.Close()
			<-done
		}()
		valid = false
		// connecting succeeds, so wait for the process instead
	case `text`:
		lip, valid = `no such address`, false
	case `port-1`:
		lport, valid = `-1`, false
	case `port70000`:
		lport, valid = `70000`, false
	case `porttext`:
		lport, valid = `http`, false
	case `foreign`:
		lip, valid = `192.0.2.1`, false
	case `any`:
		lip = ``
	}
	p := c23Start(c.args(lip, lport), ip+`:`+port)
	defer p.stop()
	flags := strings.ReplaceAll(strings.Join(c.args(lip, lport), ` `), c23Dir+`/`, ``)
	w.Eval(1)
	if !valid {
		select {
		case <-p.done:
			w.Outcome(`ended`)
			if p.cmd.ProcessState.ExitCode() == 0 || strings.TrimSpace(p.out.String()) == `` {
				w.Fail("the server ended with %d and prints %q although the flags can't be honoured\nflags: %s", p.cmd.ProcessState.ExitCode(), p.out, flags)
			}
		case <-time.After(3 * time.Second):
			w.Fail("the server runs although the flags can't be honoured\nflags: %s", flags)
		}
		return
	}
	if p.ended() {
		w.Fail("the server ended: %s\nflags: %s", p.out, flags)
		return
	}
	order := make([]int, 0, 2*len(c23Clients))
	for i := range c23Clients {
		order = append(order, i)
	}
	for i := len(c23Clients) - 1; i >= 0; i-- {
		order = append(order, i)
	}
	for n, i := range order {
		got, leaf, err := c23Get(i, p.addr, n&1 == 0)
		w.Eval(1)
		who := func() string {
			return fmt.Sprintf("client %s (request %d)\ngot: %q %v\nflags: %s", c23Clients[i].name, n+1, got, err, flags)
		}
		w.Outcome([]interface{}{c23Clients[i].name, got, err == nil})
		switch {
		case p.ended():
			w.Fail("the server ended: %s\n%s", p.out, who())
			return
		case c.admits(i):
			if got != c23Answer || err != nil {
				w.Fail("a client that is admitted isn't answered\n%s", who())
			} else if c.Cert != `` && !bytes.Equal(leaf, c23Leaf[c.Cert]) {
				w.Fail("the server didn't present its certificate\n%s", who())
			}
		case strings.Contains(got, `zq`) || strings.HasPrefix(got, `2`):
			w.Fail("a client that must be refused is answered\n%s", who())
		}
		if w.Failed() {
			return
		}
	}
	if c.Listen == `` {
		if conn, err := net.DialTimeout(`tcp`, elsewhere+`:`+port, 5*time.Second); err == nil {
			_ = conn.Close()
			w.Fail("the server listens on an address other than the one given\nflags: %s", flags)
		}
	}
}

var _ = register(func() *runner.Prop {
	return &runner.Prop{
		ID:    `C23`,
		Level: `exploration`,
		Rule:  `A real server process is started with each combination of certificate, key, authority, and verification (and addresses and ports that can't be used). It must end with an error if they can't be honoured, and otherwise clients of all kinds contact it, in two orders.`,
		Assumptions: []string{
			`when there's no TLS and no verification, it isn't judged what is done with an authority`,
			`the protocol itself is implemented by the standard library; without an authority, clients are verified with those that the system trusts`,
		},
		Enumerate: c23Enum,
		Check:     c23Check,
		Setup:     c23Setup,
		Prepare:   c23Prepare,
		Bounds: func(tier string) interface{} {
			return map[string]interface{}{`certificates`: len(c23Certs), `keys`: len(c23Keys), `authorities`: len(c23CAs), `verification`: len(c23Verify), `clients`: len(c23Clients), `orders`: 2}
		},
	}
})
