// Package runtime stands in for the standard runtime package under simulation.
package runtime

import "verif.local/sim/vsim"

func Gosched() { vsim.Gosched() }

func NumGoroutine() int {
	if s := vsim.Active(); s != nil {
		n := 0
		for _, t := range s.Tasks() {
			if !t.Done() {
				n++
			}
		}
		return n
	}
	return 1
}
