// Command run runs the programs of package conf: natively ("native"), or
// instrumented and simulated ("sim FILE", where FILE has the output of the former).
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif.local/conf"
	"verif.local/sim/vsim"
)

func one(seed uint64, f func() string) (out string, s *vsim.Sim) {
	time.Local = time.UTC
	s = vsim.New(vsim.Config{KeepTrace: true}, vsim.NewStream("gen", seed), vsim.NewStream("fault", seed), vsim.NewStream("sched", seed))
	s.Cfg.MaxYields = 200000
	s.Cfg.Gap = []int{1000000, 4, 9, 20, 50, 2}[s.Gen.N(6)]
	if s.Gen.P(1, 5) {
		s.Cfg.PCT = 1
	}
	s.Cfg.StallNum = []int{0, 0, 40, 200}[s.Gen.N(4)]
	s.Run(func(*vsim.Sim) { out = f(); s.Ev("result", out) })
	return
}

func main() {
	bad := 0
	fail := func(f string, a ...any) { fmt.Printf("selftest: "+f+"\n", a...); bad++ }
	if os.Args[1] == "native" {
		for _, c := range append(conf.Cases(), conf.NetCases(os.Args[2])...) {
			fmt.Printf("%s\x00%s\x01", c.Name, c.Run())
		}
		return
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	want := map[string]string{}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\x01"), "\x01") {
		k, v, _ := strings.Cut(l, "\x00")
		want[k] = v
	}
	cases := append(conf.Cases(), conf.NetCases("/run")...)
	if len(want) != len(cases) {
		fail("%d programs, %d outputs", len(cases), len(want))
	}
	runs := 0
	for i, c := range cases {
		hs := map[uint64]bool{}
		seeds := uint64(1500)
		if i >= len(conf.Cases()) { // sockets
			seeds = 300
		}
		for seed := uint64(1); seed <= seeds; seed++ {
			got, s := one(seed, c.Run)
			runs++
			if s.Viol != nil || s.Deadlock || s.InternalError() != "" {
				fail("%s: seed %d: %+v %v %s", c.Name, seed, s.Viol, s.Stuck, s.InternalError())
				break
			}
			if got != want[c.Name] {
				g, w := strings.Split(got, "\n"), strings.Split(want[c.Name], "\n")
				for i := 0; i < len(g) || i < len(w); i++ {
					x, y := "", ""
					if i < len(g) {
						x = g[i]
					}
					if i < len(w) {
						y = w[i]
					}
					if x != y {
						fail("%s: seed %d: simulated, line %d is\n  %s\ninstead of\n  %s", c.Name, seed, i, x, y)
					}
				}
				break
			}
			hs[s.EvHash] = true
			if seed%10 == 0 {
				if _, t := one(seed, c.Run); t.EvHash != s.EvHash || t.Yields != s.Yields || t.Switches != s.Switches {
					fail("%s: seed %d: not repeatable", c.Name, seed)
				}
			}
		}
	}
	for _, n := range conf.Needles {
		at := uint64(0)
		for seed := uint64(1); seed <= 4000; seed++ {
			got, s := one(seed, n.Run)
			runs++
			if n.Bad == "" && (s.Viol != nil || s.Deadlock) || n.Bad != "" && got == n.Bad {
				at = seed
				break
			}
			if s.InternalError() != "" || n.Bad != "" && (s.Viol != nil || s.Deadlock) {
				fail("%s: seed %d: %+v %v %s", n.Name, seed, s.Viol, s.Stuck, s.InternalError())
				break
			}
		}
		if at == 0 {
			fail("needle %q not found", n.Name)
		} else {
			fmt.Printf("needle %-26s found with seed %d\n", n.Name, at)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Printf("selftest: %d programs and %d needles, %d simulated runs, ok\n", len(cases), len(conf.Needles), runs)
}
