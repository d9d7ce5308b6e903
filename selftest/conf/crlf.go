package conf

import "fmt"

func crlf() string {
	x := &point{}
	x.x++ // one
	/* two
	lines */
	x.y = 3
	s := `raw
string`
	c := make(chan int, 1)
	select {
	case c <- 1:
		x.x += 4
	}
	return fmt.Sprint(x.x, x.y, len(s), len(c))
}