package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/vh"
)

func init() { checks["C24"] = c24 }

var byteListRE = regexp.MustCompile(`\[(\d{1,3}[, ] ?){11,}\d{1,3}\]`)
var hexListRE = regexp.MustCompile(`(0x[0-9a-f]{1,2}, ){11,}0x[0-9a-f]{1,2}`)
var wordRE = regexp.MustCompile(`[A-Za-z0-9_\-]{8,}`)
var hexRE = regexp.MustCompile(`[0-9a-fA-F]{24,}`)

// renderings returns what lists of byte values and hexadecimal text in a line stand for.
func renderings(line string) []string {
	var out []string
	for _, l := range byteListRE.FindAllString(line, -1) {
		var b []byte
		for _, n := range strings.FieldsFunc(l[1:len(l)-1], func(r rune) bool { return r == ' ' || r == ',' }) {
			v, _ := strconv.Atoi(n)
			b = append(b, byte(v))
		}
		out = append(out, string(b))
	}
	for _, l := range hexListRE.FindAllString(line, -1) {
		var b []byte
		for _, n := range strings.Split(l, ", ") {
			v, _ := strconv.ParseUint(n[2:], 16, 8)
			b = append(b, byte(v))
		}
		out = append(out, string(b))
	}
	for _, l := range hexRE.FindAllString(line, -1) {
		if b, err := hex.DecodeString(l[:len(l)/2*2]); err == nil {
			out = append(out, string(b))
		}
	}
	return out
}

func c24() {
	r := vh.NewReport("C24", "an offline checker over the logs of adapters that ran C22's marked workload at the default level and at the most verbose one: every client secret, token, authorization code, cookie key and cookie handed out is looked for in every line (at the most verbose level secrets and keys only), also URL, base64, hexadecimal and byte-list encoded; cases are scenario instances, distinct by kind and index")
	r.Assumptions = []string{"custom resources that cannot be decoded are not judged: the Kubernetes client library logs parts of them", "IdPs do not repeat secrets in error descriptions"}
	// the default, the default with the other format, everything with keys of its own making
	for n, args := range [][]string{{"--level", "0"}, {"--level", "0", "--json"}, {"--level", "-1"}} {
		func() {
			w := vh.NewWorld(r, vh.SutOpts{Args: args})
			defer w.Close()
			k := &taintBook{r: r, m: map[string]taint{}, jar: map[string]bool{}, keys: []string{vh.HashKey, vh.BlockKey}}
			if n == 2 { // keys of its own making
				w.Sut.Stop()
				w.Kube.DeleteSecret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys")
				w.StartAdapter()
			}
			c22flows(r, w, k, 2+n)
			if n == 2 {
				k.keys = nil
				for _, v := range w.Kube.Secret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys") {
					k.keys = append(k.keys, v)
				}
				r.Floor("own_keys", 2)
				r.Count("own_keys", len(k.keys))
			}
			c24scan(r, k, args, w.Sut.Log(), n == 2)
		}()
	}
	r.Floor("log_lines", 10000)
	r.Floor("cookies", 400)
	r.Floor("marks", 3000)
	r.Finish()
}

func c24scan(r *vh.Report, k *taintBook, args []string, log []byte, verbose bool) {
	var lines []string
	sc := bufio.NewScanner(bytes.NewReader(log))
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	r.Count("log_lines", len(lines))
	r.Count("cookies", len(k.jar))
	r.Count("marks", len(k.m))
	found := func(kind, line string) {
		r.Violation(fmt.Sprintf("%s %s is in the log", article(kind), kind), vh.M{"log": trunc(line, 1500), "flags": args})
	}
	par(len(lines), 8, func(i int) {
		if r.TooMany() {
			return
		}
		l := lines[i]
		for _, t := range k.find(append(renderings(l), l)...) {
			if verbose && t.kind != "secret" && t.kind != "cookiekey" {
				continue
			}
			found(t.kind, l)
			return
		}
		if verbose {
			return
		}
		for _, re := range []*regexp.Regexp{chunkRE, wordRE} {
			for _, c := range re.FindAllString(l, -1) {
				if k.jar[c] {
					found("cookie", l)
					return
				}
			}
		}
	})
}
