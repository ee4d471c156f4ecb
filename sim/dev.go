package main

import (
	"fmt"
	"sort"
	"time"

	"verifsim/zzsim"
)

// devGen measures how many generated programs the transpiler accepts.
func devGen(c *check, n int) {
	w := &worker{path: c.built.Worker}
	defer w.stop()
	errs := map[string]int{}
	var size, ok, ticks int
	t0 := time.Now()
	for i := 0; i < n; i++ {
		r := newRng(c.seed, hashString("gen"), uint64(i))
		ms := genModules(r, 1+r.n(3)*r.n(2), 10+r.n(60), true)
		sc := &zzsim.Scenario{Seed: 1, Disk: append(stdDisk(c), moduleDisk("/src", ms)...), Tasks: [][]zzsim.Step{{{Kind: "transpile", Main: "/src/main.tsh", Target: "bash"}}}, Budget: 1e8}
		o, d, err := w.run(sc)
		if err != nil || d != nil {
			fmt.Println("run", i, d, err)
			continue
		}
		x := o.Results[0]
		ticks += int(x.Ticks)
		for _, m := range ms {
			size += len(m.text)
		}
		if x.IsErr || x.Panic != "" {
			k := x.Err
			if x.Panic != "" {
				k = "panic " + clip(x.Panic, 200)
			}
			errs[k]++
			if errs[k] == 1 && len(errs) < 6 {
				fmt.Println("-----", i, k)
				for _, m := range ms {
					fmt.Printf("# %s\n%s", m.path, m.text)
				}
			}
			continue
		}
		ok++
	}
	fmt.Printf("%d of %d accepted, mean source %d bytes, mean ticks %d, %.0f/s\n", ok, n, size/n, ticks/n, float64(n)/time.Since(t0).Seconds())
	var ks []string
	for k := range errs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return errs[ks[i]] > errs[ks[j]] })
	for i, k := range ks {
		if i < 30 {
			fmt.Println(errs[k], k)
		}
	}
}
