package ref

import (
	"sort"
	"strings"
)

// firstCompletion returns the alphabetically first word that starts with s.
func firstCompletion(s string) (string, bool) {
	if s == "" {
		return "", false
	}
	i := sort.SearchStrings(Words, s)
	if i < len(Words) && strings.HasPrefix(Words[i], s) {
		return Words[i], true
	}
	return "", false
}

// Completions lists the words starting with s.
func Completions(s string) []string {
	var out []string
	for i := sort.SearchStrings(Words, s); i < len(Words) && strings.HasPrefix(Words[i], s); i++ {
		out = append(out, Words[i])
	}
	return out
}

// Editor is the model of the interactive word entry.
type Editor struct {
	Words   []string // accepted words
	Cur     string   // word being typed
	Size    int      // words wanted (after the first)
	Done    bool
	Aborted bool
	Refused int // submissions refused

	p1, p2 byte // previous two bytes
}

// Key feeds one byte.
func (e *Editor) Key(c byte) {
	if e.Done || e.Aborted {
		return
	}
	// LEFT ARROW is the sequence ESC [ D, or ESC O D in application mode
	left := c == 'D' && (e.p1 == '[' || e.p1 == 'O') && e.p2 == 0x1b
	e.p2, e.p1 = e.p1, c
	switch {
	case c == 3 || c == 4:
		e.Aborted = true
	case c >= 'a' && c <= 'z':
		e.Cur += string(c)
	case c == 0x7f:
		if n := len(e.Cur); n > 0 {
			e.Cur = e.Cur[:n-1]
		}
	case left:
		if n := len(e.Words); n > 0 {
			e.Words = e.Words[:n-1]
		}
		e.Cur = ""
	case c == '\t':
		if w, ok := firstCompletion(e.Cur); ok {
			e.Cur = w
		}
	case c == '\r' || c == ' ':
		w, ok := firstCompletion(e.Cur)
		if !ok {
			e.Refused++
			return
		}
		if len(e.Words) == 0 {
			_, size, err := VersionOf(w)
			if err != nil {
				e.Refused++
				return
			}
			e.Size = size
		}
		e.Words = append(e.Words, w)
		e.Cur = ""
		if len(e.Words) == e.Size {
			e.Done = true
		}
	}
}

// Lines is the model of line-by-line entry.
type Lines struct {
	Words []string
	Size  int
	Done  bool
}

// Line feeds one input line (without its terminator).
func (l *Lines) Line(s string) {
	if l.Done {
		return
	}
	w := strings.ToLower(strings.TrimSpace(s))
	if _, ok := Index[w]; !ok {
		return
	}
	if len(l.Words) == 0 {
		_, size, err := VersionOf(w)
		if err != nil {
			return
		}
		l.Size = size
	}
	l.Words = append(l.Words, w)
	l.Done = len(l.Words) == l.Size
}
