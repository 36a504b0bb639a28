// bb runs the black-box checks against the real adapter binary.
package main

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/vh"
)

var checks = map[string]func(){}

func main() {
	prop := flag.String("prop", "", "property to check")
	flag.Parse()
	f, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	// A watchdog, generous: its firing decides nothing.
	go func() {
		limit := 840 * time.Second
		if os.Getenv("VERIF_TIER") == "thorough" {
			limit = 4 * time.Hour
		}
		time.Sleep(limit)
		fmt.Println(*prop + ": inconclusive: watchdog")
		os.Exit(2)
	}()
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-ch; os.Exit(2) }()
	f()
}

// par runs f for 0..n-1 on a few goroutines.
func par(n, workers int, f func(i int)) {
	ch := make(chan int)
	done := make(chan struct{})
	for w := 0; w < workers; w++ {
		go func() {
			for i := range ch {
				f(i)
			}
			done <- struct{}{}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	for w := 0; w < workers; w++ {
		<-done
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = vh.Get

func sortStrings(s []string) { sort.Strings(s) }

// claimsOf decodes the payload of a token, without checking anything.
func claimsOf(tok string) vh.Claims {
	var c map[string]interface{}
	if s := strings.Split(tok, "."); len(s) == 3 {
		b, _ := base64.RawURLEncoding.DecodeString(s[1])
		json.Unmarshal(b, &c)
	}
	return vh.Claims(c)
}

// headerOf decodes the header of a token.
func headerOf(tok string) string {
	b, _ := base64.RawURLEncoding.DecodeString(strings.SplitN(tok, ".", 2)[0])
	return string(b)
}
