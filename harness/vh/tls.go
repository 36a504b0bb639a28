package vh

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"sync"
	"time"
)

// CA issues certificates.
type CA struct {
	Cert  *x509.Certificate
	key   *ecdsa.PrivateKey
	chain [][]byte // sent along with what it issues
}

var serial int64
var serialMu sync.Mutex

func nextSerial() *big.Int {
	serialMu.Lock()
	defer serialMu.Unlock()
	serial++
	return big.NewInt(serial + time.Now().UnixNano()%1000*1000000)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// NewCA makes a root, or an authority below parent.
func NewCA(name string, parent *CA, change func(c *x509.Certificate)) *CA {
	c := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	if change != nil {
		change(c)
	}
	ca := &CA{}
	var err error
	ca.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	pc, pk := c, ca.key
	if parent != nil {
		pc, pk = parent.Cert, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, c, pc, &ca.key.PublicKey, pk)
	must(err)
	ca.Cert, err = x509.ParseCertificate(der)
	must(err)
	if parent != nil {
		ca.chain = append([][]byte{der}, parent.chain...)
	}
	return ca
}

// PEM returns the authority's certificate.
func (ca *CA) PEM() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Cert.Raw})
}

// Issue makes a server certificate for names; change may alter it. Without ca it signs itself.
func (ca *CA) Issue(names []string, change func(c *x509.Certificate)) tls.Certificate {
	c := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: "idp"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			c.IPAddresses = append(c.IPAddresses, ip)
		} else {
			c.DNSNames = append(c.DNSNames, n)
		}
	}
	if change != nil {
		change(c)
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	pc, pk := c, key
	var chain [][]byte
	if ca != nil {
		pc, pk, chain = ca.Cert, ca.key, ca.chain
	}
	der, err := x509.CreateCertificate(rand.Reader, c, pc, &key.PublicKey, pk)
	must(err)
	return tls.Certificate{Certificate: append([][]byte{der}, chain...), PrivateKey: key}
}

// Front is a TLS server in front of a handler whose certificate can be changed.
type Front struct {
	Port  string
	mu    sync.Mutex
	cert  tls.Certificate
	conns map[net.Conn]bool
	srv   *http.Server
	Hello int // handshakes begun
	plain int // connections that did not begin with one
}

// eitherListener serves TLS, and those who speak without it, whom it counts.
type eitherListener struct {
	net.Listener
	f   *Front
	cfg *tls.Config
}

func (l *eitherListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return &eitherConn{Conn: c, l: l}, nil
}

type eitherConn struct {
	net.Conn // the raw one
	l        *eitherListener
	once     sync.Once
	inner    net.Conn
	err      error
}

type headConn struct {
	net.Conn
	head []byte
}

func (c *headConn) Read(b []byte) (int, error) {
	if len(c.head) > 0 {
		n := copy(b, c.head)
		c.head = c.head[n:]
		return n, nil
	}
	return c.Conn.Read(b)
}

func (c *eitherConn) Read(b []byte) (int, error) {
	c.once.Do(func() {
		first := make([]byte, 1)
		if _, c.err = c.Conn.Read(first); c.err != nil {
			return
		}
		h := &headConn{c.Conn, first}
		if first[0] == 0x16 {
			c.inner = tls.Server(h, c.l.cfg)
			return
		}
		c.l.f.mu.Lock()
		c.l.f.plain++
		c.l.f.mu.Unlock()
		c.inner = h
	})
	if c.err != nil {
		return 0, c.err
	}
	return c.inner.Read(b)
}

func (c *eitherConn) Write(b []byte) (int, error) {
	if c.inner == nil {
		return c.Conn.Write(b)
	}
	return c.inner.Write(b)
}

// Plain returns the number of connections made without TLS.
func (f *Front) Plain() int { f.mu.Lock(); defer f.mu.Unlock(); return f.plain }

// NewFront starts one; plain speaks no TLS at all.
func NewFront(h http.Handler, cert tls.Certificate, plain bool) *Front {
	f := &Front{cert: cert, conns: map[net.Conn]bool{}}
	ln, err := Listen()
	must(err)
	_, f.Port, _ = net.SplitHostPort(ln.Addr().String())
	if !plain {
		ln = &eitherListener{ln, f, &tls.Config{SessionTicketsDisabled: true, GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			f.mu.Lock()
			defer f.mu.Unlock()
			f.Hello++
			c := f.cert
			return &c, nil
		}}}
	}
	f.srv = &http.Server{Handler: h, ErrorLog: quiet(), ConnState: func(c net.Conn, s http.ConnState) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if s == http.StateClosed || s == http.StateHijacked {
			delete(f.conns, c)
		} else {
			f.conns[c] = true
		}
	}}
	go f.srv.Serve(ln)
	return f
}

// SetCert changes the certificate and drops every connection.
func (f *Front) SetCert(c tls.Certificate) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.cert = c
	for c := range f.conns {
		c.Close()
	}
}

// Hellos returns the number of handshakes begun.
func (f *Front) Hellos() int { f.mu.Lock(); defer f.mu.Unlock(); return f.Hello }

// Close ends the server.
func (f *Front) Close() { f.srv.Close() }

func quiet() *log.Logger { return log.New(io.Discard, "", 0) }
