package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifsim/zzsim"
)

const simExe = "/opt/typeshell/tsh"

// stdDisk is the standard library of the tree under test, installed next to
// the simulated executable.
func stdDisk(c *check) []zzsim.Node {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.std == nil {
		names, _ := filepath.Glob(filepath.Join(c.repo, "std", "*"))
		sort.Strings(names)
		c.std = []zzsim.Node{{Path: simExe, Data: []byte("ELF"), Mode: 0o755}}
		for _, n := range names {
			if b, err := os.ReadFile(n); err == nil {
				c.std = append(c.std, zzsim.Node{Path: "/opt/typeshell/std/" + filepath.Base(n), Data: b})
			}
		}
	}
	return append([]zzsim.Node(nil), c.std...)
}

func moduleDisk(root string, ms []*module) []zzsim.Node {
	var out []zzsim.Node
	for _, m := range ms {
		out = append(out, zzsim.Node{Path: strings.TrimSuffix(root, "/") + "/" + m.path, Data: []byte(m.text)})
	}
	return out
}
