package main

import (
	"strconv"
	"strings"
)

// VT is a small terminal emulator: enough of ECMA-48 to tell what a person
// sees. It keeps every line, those scrolled off included.
type VT struct {
	rows, cols int
	lines      [][]rune
	top        int // first visible line
	r, c       int // cursor, r counted from top
	sr, sc     int
	wrapped    bool   // a line was longer than the screen is wide
	unknown    string // a control sequence this emulator does not know
	esc        []byte
	fed        int
}

func newVT(rows, cols, start int) *VT {
	v := &VT{rows: rows, cols: cols}
	if start >= rows {
		start = rows - 1
	}
	v.r = start
	return v
}

func (v *VT) line(i int) []rune {
	if i < 0 || i >= len(v.lines) {
		return nil
	}
	return v.lines[i]
}

func (v *VT) set(ch rune) {
	if v.c >= v.cols {
		v.wrapped = true
		v.c = 0
		v.down()
	}
	y := v.top + v.r
	for len(v.lines) <= y {
		v.lines = append(v.lines, nil)
	}
	for len(v.lines[y]) <= v.c {
		v.lines[y] = append(v.lines[y], ' ')
	}
	v.lines[y][v.c] = ch
	if v.c++; v.c >= v.cols { // the cursor hangs over the edge: terminals differ
		v.wrapped = true
	}
}

func (v *VT) down() {
	if v.r++; v.r >= v.rows {
		v.r--
		v.top++
	}
}

func (v *VT) clear(y, from, to int) {
	l := v.line(y)
	for i := max(from, 0); i < to && i < len(l); i++ {
		l[i] = ' '
	}
}

// feed shows what was written since the last call.
func (v *VT) feed(all []byte) {
	for ; v.fed < len(all); v.fed++ {
		v.put(all[v.fed])
	}
}

func (v *VT) put(b byte) {
	if len(v.esc) > 0 {
		v.esc = append(v.esc, b)
		v.escape()
		return
	}
	switch {
	case b == 0x1b:
		v.esc = []byte{b}
	case b == '\r':
		v.c = 0
	case b == '\n' || b == '\v' || b == '\f':
		v.down()
	case b == '\b':
		if v.c >= v.cols {
			v.c = v.cols - 1
		}
		if v.c > 0 {
			v.c--
		}
	case b == '\t':
		v.c = min(v.c/8*8+8, v.cols-1)
	case b < 0x20 || b == 0x7f:
	case b >= 0x80 && b < 0xc0: // within a UTF-8 sequence
	case b >= 0xc0:
		v.set('?')
	default:
		v.set(rune(b))
	}
}

func (v *VT) escape() {
	e := v.esc
	if len(e) == 2 {
		switch e[1] {
		case '[':
			return
		case '7':
			v.sr, v.sc = v.r, v.c
		case '8':
			v.r, v.c = v.sr, v.sc
		case 'D':
			v.down()
		case 'E':
			v.c = 0
			v.down()
		case 'M':
			if v.r > 0 {
				v.r--
			}
		case '=', '>':
		default:
			v.unknown = string(e)
		}
		v.esc = nil
		return
	}
	f := e[len(e)-1]
	if f < 0x40 || f > 0x7e {
		if len(e) > 40 {
			v.unknown, v.esc = string(e), nil
		}
		return
	}
	v.esc = nil
	arg := string(e[2 : len(e)-1])
	if strings.HasPrefix(arg, "?") {
		if f != 'h' && f != 'l' {
			v.unknown = string(e)
		}
		return
	}
	var ps []int
	for _, s := range strings.Split(arg, ";") {
		n, _ := strconv.Atoi(s)
		ps = append(ps, n)
	}
	n := max(ps[0], 1)
	y := v.top + v.r
	switch f {
	case 'm', 'h', 'l':
	case 'A':
		v.r = max(v.r-n, 0)
	case 'B':
		v.r = min(v.r+n, v.rows-1)
	case 'C':
		v.c = min(v.c+n, v.cols-1)
	case 'D':
		v.c = max(v.c-n, 0)
	case 'E':
		v.r, v.c = min(v.r+n, v.rows-1), 0
	case 'F':
		v.r, v.c = max(v.r-n, 0), 0
	case 'G':
		v.c = min(n, v.cols) - 1
	case 'd':
		v.r = min(n, v.rows) - 1
	case 'H', 'f':
		v.r = min(n, v.rows) - 1
		v.c = 0
		if len(ps) > 1 {
			v.c = min(max(ps[1], 1), v.cols) - 1
		}
	case 's':
		v.sr, v.sc = v.r, v.c
	case 'u':
		v.r, v.c = v.sr, v.sc
	case 'K':
		switch ps[0] {
		case 0:
			v.clear(y, v.c, 1<<30)
		case 1:
			v.clear(y, 0, v.c+1)
		default:
			v.clear(y, 0, 1<<30)
		}
	case 'J':
		from, to := y+1, v.top+v.rows
		switch ps[0] {
		case 0:
			v.clear(y, v.c, 1<<30)
		case 1:
			v.clear(y, 0, v.c+1)
			from, to = v.top, y
		case 3:
			return
		default:
			from = v.top
		}
		for i := from; i < to; i++ {
			v.clear(i, 0, 1<<30)
		}
	case 'X':
		v.clear(y, v.c, v.c+n)
	case 'P':
		l := v.line(y)
		if v.c < len(l) {
			l = append(l[:v.c], l[min(v.c+n, len(l)):]...)
			v.lines[y] = l
		}
	default:
		v.unknown = string(e)
	}
}

// at splits the cursor's line at the cursor.
func (v *VT) at() (before, after string) {
	l := v.line(v.top + v.r)
	c := min(v.c, len(l))
	before = string(l[:c]) + strings.Repeat(" ", v.c-c)
	return before, strings.TrimRight(string(l[c:]), " ")
}

func (v *VT) row(i int) string { return strings.TrimRight(string(v.line(i)), " ") }

// ok reports whether the picture can be trusted.
func (v *VT) ok() bool { return !v.wrapped && v.unknown == "" }
