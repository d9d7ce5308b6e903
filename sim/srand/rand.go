// Package rand stands in for math/rand under simulation: the shared source is
// seeded by the schedule.
package rand

import (
	"math/rand"

	"verif.local/sim/vsim"
)

type src struct{ s *vsim.Sim }

func (x src) Seed(int64)   {}
func (x src) Int63() int64 { return int64(x.Uint64() >> 1) }
func (x src) Uint64() uint64 {
	return uint64(x.s.Sched.N(1<<16))<<48 | uint64(x.s.Sched.N(1<<24))<<24 | uint64(x.s.Sched.N(1<<24))
}

func g() *rand.Rand {
	s := vsim.Active()
	if s == nil {
		return rand.New(rand.NewSource(1))
	}
	vsim.Y()
	return rand.New(src{s})
}

func Seed(int64)                      {}
func Int() int                        { return g().Int() }
func Intn(n int) int                  { return g().Intn(n) }
func Int31() int32                    { return g().Int31() }
func Int31n(n int32) int32            { return g().Int31n(n) }
func Int63() int64                    { return g().Int63() }
func Int63n(n int64) int64            { return g().Int63n(n) }
func Uint32() uint32                  { return g().Uint32() }
func Uint64() uint64                  { return g().Uint64() }
func Float32() float32                { return g().Float32() }
func Float64() float64                { return g().Float64() }
func ExpFloat64() float64             { return g().ExpFloat64() }
func NormFloat64() float64            { return g().NormFloat64() }
func Perm(n int) []int                { return g().Perm(n) }
func Shuffle(n int, f func(i, j int)) { g().Shuffle(n, f) }
func Read(p []byte) (int, error)      { return g().Read(p) }
