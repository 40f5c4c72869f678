package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"zsim/core"

	"simrun/ref"
)

// watcher is the person in front of the screen: it compares what the prompts
// display with what was typed.
type watcher struct {
	cmd    *Cmd
	t      *core.TTY
	vt     *VT
	ed     ref.Editor
	ln     ref.Lines
	line   []byte
	below  string // the line under the prompt: "message", "blank", or "" for either
	row    int    // the last line a word was asked for on
	asked  int    // how often the screen was looked at
	kind   string // what is wrong
	detail string
}

func newWatcher(cmd *Cmd, t *core.TTY) *watcher {
	w := &watcher{cmd: cmd, t: t, row: -1}
	if cmd.StderrTTY && cmd.Rows >= 6 && cmd.Cols >= 60 {
		w.vt = newVT(int(cmd.Rows), int(cmd.Cols), cmd.StartRow)
	}
	return w
}

func (w *watcher) bad(kind, format string, a ...any) {
	if w.kind == "" {
		w.kind, w.detail = kind, fmt.Sprintf(format, a...)
	}
}

// live brings the picture up to date and tells whether it can be judged.
func (w *watcher) live() bool {
	if w.vt == nil || w.kind != "" {
		return false
	}
	w.vt.feed(w.t.Render)
	return w.vt.ok()
}

var numberRe = regexp.MustCompile(`\d+`)

// look judges the screen while a prompt waits.
func (w *watcher) look() {
	if !w.live() || w.t.Hangup {
		return
	}
	var cur, want string
	var n int
	switch {
	case w.t.T.Lflag&core.ICANON == 0:
		if w.ed.Done || w.ed.Aborted {
			return
		}
		cur, n = w.ed.Cur, len(w.ed.Words)+1
		if f := ref.Completions(cur); cur != "" && len(f) > 0 {
			want = f[0][len(cur):]
		}
	case w.t.T.Lflag&core.ECHO != 0:
		if !w.cmd.Simple || w.ln.Done {
			return
		}
		n = len(w.ln.Words) + 1
	default: // a password prompt
		w.clean()
		return
	}
	w.asked++
	v := w.vt
	w.row = v.top + v.r
	before, after := v.at()
	show := fmt.Sprintf("%q, cursor, %q", before, after)
	head, ok := strings.CutSuffix(before, cur)
	nums := numberRe.FindAllString(head, -1)
	switch {
	case !ok || cur != "" && head != "" && isLetter(head[len(head)-1]):
		w.bad("screen shows other letters", "the letters typed for word %d are %q, the line shows %s", n, cur, show)
	case len(nums) == 0 || nums[len(nums)-1] != strconv.Itoa(n):
		w.bad("screen shows another word number", "word %d is being entered, the line shows %s", n, show)
	case cur == "" && lettersAfter(head, nums[len(nums)-1]) || cur != "" && lettersAfter(head, nums[len(nums)-1]):
		w.bad("screen shows other letters", "the letters typed for word %d are %q, the line shows %s", n, cur, show)
	case after != want:
		w.bad("screen shows another completion", "typed %q, ENTER would complete it with %q, the line shows %s", cur, want, show)
	}
	under := strings.TrimSpace(v.row(w.row + 1))
	switch {
	case w.below == "message" && under == "":
		w.bad("no message about a refused word", "%q was refused or matches no word, and nothing says so under the prompt", cur)
	case w.below == "blank" && under != "":
		w.bad("stale message", "under the prompt for word %d with %q typed the screen still says %q", n, cur, under)
	}
	w.clean()
}

func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

func lettersAfter(s, num string) bool {
	for _, b := range []byte(s[strings.LastIndex(s, num)+len(num):]) {
		if isLetter(b) {
			return true
		}
	}
	return false
}

// typed notes what the user does next.
func (w *watcher) typed(u core.Unit) {
	if w.vt == nil {
		return
	}
	switch {
	case w.t.T.Lflag&core.ICANON == 0:
		w.below = ""
		for i := 0; i < len(u.Data); i++ {
			c := u.Data[i]
			was := w.ed.Refused
			w.ed.Key(c)
			none := w.ed.Cur != "" && len(ref.Completions(w.ed.Cur)) == 0
			switch {
			case w.ed.Refused > was:
				w.below = "message"
			case c == 0x7f || c >= 'a' && c <= 'z':
				w.below = "blank"
				if none {
					w.below = "message"
				}
			case c != '\t' || !none:
				w.below = ""
			}
		}
	case w.t.T.Lflag&core.ECHO != 0:
		if strings.Count(u.Data, "\r") > 1 {
			w.vt = nil // pasted: the echo of later lines falls between the prompts
			return
		}
		for i := 0; i < len(u.Data); i++ {
			switch c := u.Data[i]; c {
			case 0x7f:
				w.line = w.line[:max(len(w.line)-1, 0)]
			case 0x15:
				w.line = nil
			case '\r':
				n := len(w.ln.Words)
				w.ln.Line(string(w.line))
				w.below = "blank"
				if len(w.ln.Words) == n {
					w.below = "message"
				}
				w.line = nil
			case 3, 4:
			default:
				w.line = append(w.line, c)
			}
		}
	}
}

var promptRe = regexp.MustCompile(`(?i)\bword\W*\d+\W*[a-z]`)

// clean looks for words that were left on the screen above and at the prompt.
func (w *watcher) clean() {
	if w.row < 0 {
		return
	}
	v := w.vt
	entered := map[string]bool{}
	for _, l := range [][]string{w.ed.Words, w.ln.Words} {
		for _, x := range l {
			entered[x] = true
		}
	}
	waiting := w.row == v.top+v.r && !w.ed.Done && !w.ed.Aborted
	for y := 0; y <= w.row+1; y++ {
		s := v.row(y)
		if s == "" || waiting && y == w.row {
			continue
		}
		n := 0
		f := strings.Fields(s)
		for _, x := range f {
			if entered[x] {
				n++
			}
		}
		if promptRe.MatchString(s) || len(f) == 1 && n == 1 || n > 1 && n == len(f) {
			w.bad("word left on the screen", "%d words were entered and the screen still shows %q", len(w.ed.Words)+len(w.ln.Words), s)
			return
		}
	}
}

var shownRe = regexp.MustCompile(`^\s*(\d+)\W+([a-z]+)$`)

// checkScreen judges what is on the screen when a command has ended.
func (rn *Run) checkScreen(r *Res, shown bool, phrase []string) {
	w := r.agent.watch
	if w.vt == nil || r.Out.Killed || r.Hurt() || r.TTY.Hangup || r.Out.Hung || r.Out.Deadlock || r.Out.Panic != "" {
		return
	}
	if w.asked > 0 || shown {
		rn.relevant("C26")
	}
	if w.live() {
		w.clean()
		if w.kind == "" && shown {
			var got []string
			for y := range w.vt.lines {
				if m := shownRe.FindStringSubmatch(w.vt.row(y)); m != nil && m[1] == strconv.Itoa(len(got)+1) {
					got = append(got, m[2])
				}
			}
			if strings.Join(got, " ") != strings.Join(phrase, " ") || len(got) == 0 {
				w.bad("phrase not legible", "the phrase %v is shown as %v", phrase, got)
			}
		}
	}
	if w.kind != "" {
		rn.bad("C26", w.kind, "%s: %s", strings.Join(r.Cmd.args(), " "), w.detail)
	}
}
