package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verifsim/zzsim"
)

// A simulated tsh process: the real command binary with every system call on
// files, the clock and the random source behind the simulated kernel.

type procRun struct {
	Sc   *zzsim.Scenario `json:"scenario"`
	Args []string        `json:"args"`
}

type procResult struct {
	exit   int
	stderr string
	final  map[string]zzsim.Node // whole disk at the end
	start  map[string]zzsim.Node
	fired  map[string]int
	log    []string
	ops    []string // "name path"
}

var procSeq int64

// diskMap is the disk as the simulated kernel lays it out.
func diskMap(nodes []zzsim.Node) map[string]zzsim.Node {
	m := map[string]zzsim.Node{}
	for _, n := range nodes {
		if n.Kind == "d" {
			continue
		}
		if n.Kind == "h" {
			t := m[string(n.Data)]
			t.Path = n.Path
			m[n.Path] = t
			continue
		}
		if n.Mode == 0 {
			n.Mode = 0o644
		}
		m[n.Path] = n
	}
	return m
}

func (c *check) runTsh(pr *procRun) (*procResult, error) {
	id := atomic.AddInt64(&procSeq, 1)
	base := filepath.Join(c.scratch, fmt.Sprintf("proc%d", id))
	scn, logf := base+".json", base+".log"
	defer os.Remove(scn)
	defer os.Remove(logf)
	sc := *pr.Sc
	sc.LogPath = logf
	b, err := json.Marshal(&sc)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(scn, b, 0o600); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.built.Tsh)
	cmd.Args = append([]string{"tsh"}, pr.Args...)
	if sc.Arg0 != "" {
		cmd.Args[0] = sc.Arg0
	}
	cmd.Env = []string{"ZZSIM_SCN=" + scn, fmt.Sprintf("ZZSIM_SEED=%d", sc.Seed), "GOMAXPROCS=1", "GOTRACEBACK=single"}
	cmd.Dir = "/"
	eb := &tail{}
	cmd.Stderr = eb
	cmd.Stdout = eb
	rerr := cmd.Run()
	res := &procResult{stderr: eb.String(), fired: map[string]int{}}
	if ctx.Err() != nil {
		res.exit = 98
	} else if ee, ok := rerr.(*exec.ExitError); ok {
		res.exit = ee.ExitCode()
		if res.exit < 0 {
			res.exit = 256
		}
	} else if rerr != nil {
		return nil, rerr
	}
	lb, err := os.ReadFile(logf)
	if err != nil {
		return nil, fmt.Errorf("no event log: %v (%s)", err, clip(res.stderr, 500))
	}
	res.start = diskMap(sc.Disk)
	res.final = diskMap(sc.Disk)
	started := false
	dec := func(s string) string { b, _ := base64.StdEncoding.DecodeString(s); return string(b) }
	node := func(f []string) zzsim.Node {
		k := f[1]
		if k == "f" {
			k = ""
		}
		m, _ := strconv.ParseUint(f[2], 8, 32)
		d := ""
		if len(f) > 3 {
			d = dec(f[3])
		}
		return zzsim.Node{Path: dec(f[0]), Kind: k, Mode: uint32(m), Data: []byte(d)}
	}
	for _, l := range strings.Split(string(lb), "\n") {
		f := strings.Split(l, " ")
		switch f[0] {
		case "START":
			started = true
		case "N":
			res.log = append(res.log, l[2:])
		case "OP":
			res.ops = append(res.ops, f[1]+" "+dec(f[2]))
		case "FIRED":
			res.fired[f[1]]++
		case "STATE":
			n := node(f[1:])
			res.final[n.Path] = n
		case "GONE":
			delete(res.final, dec(f[1]))
		case "RENAME":
			from := dec(f[1])
			n := node(f[2:])
			delete(res.final, from)
			res.final[n.Path] = n
		case "HANG":
			res.exit = 98
		case "TROUBLE":
			return nil, fmt.Errorf("simulated process: %s", l)
		}
	}
	if !started || res.exit == 97 {
		return nil, fmt.Errorf("simulated process did not start: %s", clip(res.stderr, 500))
	}
	for k, n := range res.final {
		if n.Kind == "d" {
			delete(res.final, k)
		}
	}
	return res, nil
}

func sameNode(a, b zzsim.Node, okA, okB bool) bool {
	if okA != okB {
		return false
	}
	return !okA || a.Kind == b.Kind && bytes.Equal(a.Data, b.Data)
}
