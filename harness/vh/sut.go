package vh

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
)

// Sut is a running adapter process.
type Sut struct {
	cmd     *exec.Cmd
	Port    int
	Dir     string
	done    chan struct{}
	exitErr error
	conn    *grpc.ClientConn
	mu      sync.Mutex
	stopped bool
	nreq    int64
}

// SutOpts configure the process.
type SutOpts struct {
	Args   []string
	Env    []string
	Bin    string // default $VH_SUT
	NoWait bool
}

var sutSeq int
var sutMu sync.Mutex

// Scratch returns a scratch directory below VH_SCRATCH.
func Scratch(name string) string {
	base := os.Getenv("VH_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	sutMu.Lock()
	sutSeq++
	d := filepath.Join(base, fmt.Sprintf("%s-%d-%d", name, os.Getpid(), sutSeq))
	sutMu.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// StartSut starts the adapter against the fake API server.
func StartSut(kubeURL string, o SutOpts) (*Sut, error) {
	var last error
	for try := 0; try < 8; try++ {
		s, err := startSut(kubeURL, o)
		if err == nil {
			return s, nil
		}
		last = err
	}
	return nil, last
}

func startSut(kubeURL string, o SutOpts) (*Sut, error) {
	s := &Sut{Dir: Scratch("sut"), Port: freePort(), done: make(chan struct{})}
	kc := filepath.Join(s.Dir, "kubeconfig")
	cfg := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster:\n    server: %s\ncontexts:\n- name: c\n  context:\n    cluster: c\n    user: u\nusers:\n- name: u\n  user: {}\ncurrent-context: c\n", kubeURL)
	if err := os.WriteFile(kc, []byte(cfg), 0o644); err != nil {
		return nil, err
	}
	bin := o.Bin
	if bin == "" {
		bin = os.Getenv("VH_SUT")
	}
	args := append([]string{"--port", fmt.Sprint(s.Port), "--level", "3"}, o.Args...)
	s.cmd = exec.Command(bin, args...)
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "KUBE") && !strings.HasPrefix(strings.ToLower(e), "http_proxy") && !strings.HasPrefix(strings.ToLower(e), "https_proxy") {
			env = append(env, e)
		}
	}
	s.cmd.Env = append(append(env, "KUBECONFIG="+kc), o.Env...)
	lf, err := os.Create(filepath.Join(s.Dir, "log"))
	if err != nil {
		return nil, err
	}
	s.cmd.Stdout, s.cmd.Stderr = lf, lf
	s.cmd.Dir = s.Dir
	s.cmd.SysProcAttr = procAttr()
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		s.exitErr = s.cmd.Wait()
		lf.Close()
		close(s.done)
	}()
	if o.NoWait {
		return s, nil
	}
	deadline := time.Now().Add(60 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), time.Second)
		if err == nil {
			c.Close()
			if listens(s.cmd.Process.Pid, s.Port) {
				break
			}
		}
		select {
		case <-s.done:
			return nil, fmt.Errorf("adapter exited at start: %v\n%s", s.exitErr, s.Tail(4000))
		default:
		}
		if time.Now().After(deadline) {
			s.Stop()
			return nil, fmt.Errorf("adapter does not listen\n%s", s.Tail(4000))
		}
		time.Sleep(5 * time.Millisecond)
	}
	return s, nil
}

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return v.([]byte), nil }
func (rawCodec) Unmarshal(data []byte, v interface{}) error {
	*(v.(*[]byte)) = append([]byte{}, data...)
	return nil
}
func (rawCodec) Name() string   { return "proto" }
func (rawCodec) String() string { return "proto" }

// Dial connects to the adapter.
func (s *Sut) Dial() (*grpc.ClientConn, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	return grpc.DialContext(ctx, fmt.Sprintf("127.0.0.1:%d", s.Port), grpc.WithInsecure(), grpc.WithBlock(),
		grpc.WithDefaultCallOptions(grpc.ForceCodec(rawCodec{}), grpc.MaxCallRecvMsgSize(64<<20), grpc.MaxCallSendMsgSize(64<<20)))
}

// Do sends a request and waits for the answer, at most a minute.
func (s *Sut) Do(r Req) *Resp { return s.DoT(r, 60*time.Second) }

// DoT is Do with its own time limit.
func (s *Sut) DoT(r Req, limit time.Duration) *Resp {
	s.mu.Lock()
	if s.conn == nil {
		c, err := s.Dial()
		if err != nil {
			s.mu.Unlock()
			return &Resp{Err: fmt.Errorf("dial: %v", err)}
		}
		s.conn = c
	}
	c := s.conn
	s.mu.Unlock()
	return DoConn(c, r, limit)
}

// OnReusable, when set, is told of answers that allow whoever asked to apply them to other requests too.
var OnReusable func(Req, *Resp)

// NoReuse makes such answers violations.
func NoReuse(r *Report) {
	OnReusable = func(q Req, resp *Resp) {
		r.Violation("an answer declares itself valid for other requests than the one it decides:"+resp.Reuse, M{"request": ReqM(q), "answer": resp.String()})
	}
}

// DoConn sends a request over a connection of one's own.
func DoConn(c *grpc.ClientConn, r Req, limit time.Duration) *Resp {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var out []byte
	if err := c.Invoke(ctx, "/authnz.HandleAuthnZService/HandleAuthnZ", r.Encode(), &out); err != nil {
		return &Resp{Err: err}
	}
	resp, err := DecodeResp(out)
	if err != nil {
		resp.Err = fmt.Errorf("undecodable answer: %v", err)
	}
	if f := OnReusable; f != nil && resp.Reuse != "" {
		f(r, resp)
	}
	return resp
}

// Alive tells whether the process runs.
func (s *Sut) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

// ExitErr returns how the process ended.
func (s *Sut) ExitErr() error { return s.exitErr }

// Pid of the process.
func (s *Sut) Pid() int { return s.cmd.Process.Pid }

// Log returns the whole log.
func (s *Sut) Log() []byte { b, _ := os.ReadFile(filepath.Join(s.Dir, "log")); return b }

// Tail returns the end of the log.
func (s *Sut) Tail(n int) string {
	b := s.Log()
	if i := bytes.Index(b, []byte("panic:")); i >= 0 && len(b)-i > 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
		return string(b)
	}
	if i := bytes.Index(b, []byte("fatal error:")); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
		return string(b)
	}
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// Stop ends the process.
func (s *Sut) Stop() {
	s.mu.Lock()
	if s.conn != nil {
		s.conn.Close()
		s.conn = nil
	}
	s.mu.Unlock()
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
	<-s.done
}
