package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
)

// Everything that a contribution or key extraction writes, wherever and for
// however short a time (files that are removed or overwritten again, other
// directories, the standard streams): the command runs in a process of its own,
// on a seeded random source, under strace, from whose log the written bytes are
// taken.

type served struct {
	Log   []byte
	Reads [][2]int
	Err   string
}

const servedName = "served.json"

// leakChild is the traced process: vh leak <seed> p1c|p2c|key|keys <input> <output>
func leakChild(args []string) {
	s := &source{then: newRng("leak", args[0]).src}
	crand.Reader = s
	var err error
	switch args[1] {
	case "p1c":
		err = p1Contribute(args[2], args[3])
	case "p2c":
		err = p2Contribute(args[2], args[3])
	case "key":
		err = extractKeys(args[2])
	case "keys":
		err = extractSplit(args[2], args[3])
	default:
		err = errors.New("no such command")
	}
	r := served{Log: s.log, Reads: s.reads}
	if err != nil {
		r.Err = err.Error()
	}
	b, _ := json.Marshal(r)
	os.WriteFile(servedName, b, 0644)
}

var (
	writeCall = regexp.MustCompile(`^\S+\s+(?:write|pwrite64|writev|pwritev|pwritev2|sendto|sendmsg|sendmmsg|vmsplice)\((\d+)<((?:\\x[0-9a-f]{2}|[^>])*)>`)
	hexString = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
)

func unescape(s string) []byte {
	b, _ := hex.DecodeString(strings.ReplaceAll(s, `\x`, ""))
	return b
}

// writtenBy runs leakChild under strace; what it wrote is returned by file.
// Without strace the result is nil.
func (c *Ctx) writtenBy(cmd, in, out string) (map[string][]byte, *served) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		return nil, nil
	}
	self, err := os.Executable()
	if err != nil {
		return nil, nil
	}
	log := filepath.Join(c.Dir, "writes.log")
	defer os.Remove(log)
	p := exec.Command(strace, "-f", "-qq", "-y", "-xx", "-s", "16777216", "-o", log,
		"-e", "trace=write,pwrite64,writev,pwritev,pwritev2,sendto,sendmsg,sendmmsg,vmsplice",
		self, "leak", fmt.Sprint(c.Uint64()), cmd, in, out)
	p.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.Stdout, p.Stderr = &bytes.Buffer{}, &bytes.Buffer{}
	if err := p.Run(); err != nil {
		c.Count("traces_failed", 1)
		return nil, nil
	}
	raw, err := os.ReadFile(servedName)
	if err != nil {
		return nil, nil
	}
	os.Remove(servedName)
	r := &served{}
	if err := json.Unmarshal(raw, r); err != nil {
		return nil, nil
	}
	places := map[string][]byte{}
	calls := 0
	for _, l := range bytes.Split(mustRead(log), []byte("\n")) {
		m := writeCall.FindSubmatch(l)
		if m == nil {
			continue
		}
		path := string(m[2])
		if strings.HasPrefix(path, `\x`) {
			path = string(unescape(path))
		}
		if filepath.Base(strings.TrimSuffix(path, " (deleted)")) == servedName {
			continue
		}
		calls++
		for _, s := range hexString.FindAllSubmatch(l[len(m[0]):], -1) {
			places["written to "+path] = append(places["written to "+path], unescape(string(s[1]))...)
		}
	}
	if calls == 0 {
		return nil, nil
	}
	c.Count("traced_processes", 1)
	c.Count("traced_writes", calls)
	return places, r
}
