package vsim

import "testing"

func TestMono(t *testing.T) {
	if !monoWorks {
		t.Fatal("time.Time has another layout")
	}
}
