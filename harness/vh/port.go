package vh

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Ports are taken from below the range the kernel uses for outgoing connections, so that nothing else
// takes one between the moment it is chosen and the moment it is listened on (again).
var (
	portMu   sync.Mutex
	portRnd  = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
	portUsed = map[int]bool{}
)

// Listen listens on a port of its own, which is never reused in this process.
func Listen() (net.Listener, error) {
	var last error
	for i := 0; i < 200; i++ {
		portMu.Lock()
		p := 10000 + portRnd.Intn(22000)
		used := portUsed[p]
		portUsed[p] = true
		portMu.Unlock()
		if used {
			continue
		}
		// the adapter listens on every address
		all, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			last = err
			continue
		}
		all.Close()
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			return l, nil
		}
		last = err
	}
	return nil, fmt.Errorf("no port: %v", last)
}

func freePort() int {
	l, err := Listen()
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// listens tells whether the process, one of ours, is the one that listens on the port.
func listens(pid, port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			c := strings.Fields(l)
			if len(c) > 9 && c[3] == "0A" && strings.HasSuffix(c[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+c[9]+"]"] = true
			}
		}
	}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, fd := range fds {
		if t, err := os.Readlink(fd); err == nil && inodes[t] {
			return true
		}
	}
	return len(inodes) > 0 && len(fds) == 0 // /proc does not tell
}
