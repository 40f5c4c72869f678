package main

import (
	"math/big"
	"path"
	"regexp"
	"strconv"
	"strings"
	"zsim/core"

	"simrun/ref"
)

// kdf is the password hash the simulated world runs on, with the parameters
// the specification fixes.
func (rn *Run) kdf(password, salt []byte, n uint32) []byte {
	key := string(password) + "\x00" + string(salt) + "\x00" + strconv.Itoa(int(n))
	if v, ok := rn.kdfMemo[key]; ok {
		return v
	}
	var v []byte
	if rn.w.RealKDF {
		v = core.RealKDF("id", password, salt, 4, 0x80000, 2, n)
	} else {
		v = core.StubKDF("id", password, salt, 4, 0x80000, 2, n)
	}
	rn.kdfMemo[key] = v
	return v
}

// Want is what the specification says a command must do when nothing fails.
type Want struct {
	OK     bool
	Either bool // both success and failure are acceptable
	Why    string

	Known  bool // seed and creation time are determined by the input
	Seed   [16]byte
	Offset uint32
	Input  []string // the phrase that was entered, if any

	KeyPw    string
	PhPw     string
	Master   bool
	Types    []string
	SelfCert bool
	Idx      map[string]uint16
	UID      string
	TTL      int64
	Asked    bool // a key or phrase is to be produced (not usage text)
}

var ttlRe = regexp.MustCompile(`^[0-9]+[dwmyDWMY]$`)

func ttlSeconds(s string) (int64, bool) {
	if !ttlRe.MatchString(s) {
		return 0, false
	}
	q, ok := new(big.Int).SetString(s[:len(s)-1], 10)
	if !ok || q.BitLen() > 64 {
		return 0, false
	}
	u := map[byte]int64{'d': 86400, 'w': 7 * 86400, 'm': 365 * 86400 / 12, 'y': 365 * 86400}[s[len(s)-1]|0x20]
	q.Mul(q, big.NewInt(u))
	if q.Sign() == 0 || q.BitLen() > 32 {
		return 0, false
	}
	return q.Int64(), true
}

func (w *Want) fail(why string) {
	if w.Why == "" {
		w.Why = why
	}
	w.OK = false
}

// model computes the outcome from the options, the files as they were and what
// the user did.
func (rn *Run) model(r *Res) *Want {
	c := r.Cmd
	w := &Want{OK: true, Asked: true, Master: true, SelfCert: true, Idx: map[string]uint16{}, Types: ref.SubTypes}
	if c.RawArgs != nil {
		w.Asked = false
		return w
	}
	tty := c.Stdin == "" || c.Stdin == "tty"
	if c.Verb != "convert" {
		name := "anonymous"
		if c.Name != nil {
			name = strings.TrimSpace(*c.Name)
		}
		email := ""
		if c.Email != nil {
			email = strings.TrimSpace(*c.Email)
		}
		switch {
		case email == "":
			w.UID = name
		case name == "":
			w.UID = email
		default:
			w.UID = name + " <" + email + ">"
		}
		if c.TTL != nil && *c.TTL != "" {
			t, ok := ttlSeconds(*c.TTL)
			if !ok {
				w.fail("invalid ttl")
			}
			w.TTL = t
		}
		if c.Only != nil && *c.Only != "" {
			w.Master = false
			set := map[string]bool{}
			for _, t := range strings.Split(*c.Only, ",") {
				switch t {
				case "master":
					w.Master = true
				case "encryption", "authentication", "signing":
					set[t] = true
				default:
					w.fail("unknown key type")
				}
			}
			w.Types = nil
			for _, t := range ref.SubTypes {
				if set[t] {
					w.Types = append(w.Types, t)
				}
			}
		}
	}
	if c.Verb == "recover" {
		for _, x := range []struct {
			t string
			v *string
		}{{"encryption", c.EncI}, {"authentication", c.AuthI}, {"signing", c.SigI}} {
			if x.v == nil {
				continue
			}
			n, err := strconv.ParseUint(*x.v, 0, 64)
			if err != nil || n > 65535 {
				w.fail("invalid index")
			}
			w.Idx[x.t] = uint16(n)
		}
		if !w.Master && c.SelfCert == "false" {
			w.SelfCert = false
		}
	}
	switch c.Verb {
	case "generate":
		in, out := 0, 0
		for _, t := range r.Clock {
			switch s := floorDiv(t, 1e9); {
			case s >= ref.Epoch && (s < ref.Epoch+ref.MaxOffset || (s == ref.Epoch+ref.MaxOffset && t%1e9 == 0)):
				in++
			case s == ref.Epoch+ref.MaxOffset:
				in++
				out++
			default:
				out++
			}
		}
		if in == 0 && out > 0 {
			w.fail("clock out of range")
		} else if out > 0 {
			w.Either = true
		}
		if c.Entropy != nil && *c.Entropy != "" {
			var data string
			var ok bool
			if *c.Entropy == "-" {
				switch {
				case c.Stdin == "pipe":
					for _, k := range c.Pipe {
						data += k.Data
					}
					ok = true
				default:
				}
			} else {
				data, ok = readFile(r.Before, *c.Entropy)
			}
			if !ok || len(data) < 16 {
				w.fail("entropy source missing or short")
			} else {
				copy(w.Seed[:], data)
			}
		}
	default:
		words, why := rn.modelWords(r)
		if why == oversized {
			w.Either, why = true, ""
		}
		if why != "" {
			w.fail(why)
		}
		w.Input = words
		if why == "" {
			ph, err := ref.Decode(words)
			if err != nil {
				w.fail("phrase: " + err.Error())
			} else if !ph.Enc {
				w.Known, w.Seed, w.Offset = true, ph.Data, ph.Offset
			} else if !tty {
				w.fail("password needed without a terminal")
			} else {
				ok := false
				for _, p := range c.Dec {
					if p == "" {
						continue
					}
					if s, good := ph.Open([]byte(p), rn.kdf); good {
						w.Known, w.Seed, w.Offset = true, s, ph.Offset
						ok = true
						break
					}
				}
				if !ok {
					w.fail("no password opens the phrase")
				}
			}
		}
	}
	pair := func(l [][2]string) (string, bool) {
		if !tty {
			return "", false
		}
		for _, p := range l {
			if p[0] != "" && p[1] == giveUp {
				break
			}
			if p[0] != "" && p[0] == p[1] {
				return p[0], true
			}
		}
		return "", false
	}
	if c.EncKeys && c.Verb != "convert" {
		p, ok := pair(c.NewKey)
		if !ok {
			w.fail("no key password confirmed")
		}
		w.KeyPw = p
	}
	if c.EncPhrase && c.Verb != "recover" {
		p, ok := pair(c.NewPh)
		if !ok {
			w.fail("no phrase password confirmed")
		}
		w.PhPw = p
	}
	if c.OutFile != nil && *c.OutFile != "" && c.Verb != "recover" {
		p := absPath(*c.OutFile)
		if _, ok := r.Before[p]; ok {
			w.fail("destination exists")
		} else if d, ok := r.Before[path.Dir(p)]; !ok || !d.Mode.IsDir() || strings.HasSuffix(p, "/") || len(path.Base(p)) > 255 {
			w.fail("destination not writable")
		} else if d.UID != 1000 && d.Mode.Perm()&2 == 0 || d.UID == 1000 && d.Mode.Perm()&0300 != 0300 {
			w.fail("destination not writable")
		}
	}
	if c.NoStdout && c.Verb != "convert" {
		w.fail("standard output closed")
	}
	if !w.OK {
		w.Either = false
	}
	return w
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func readFile(m map[string]fstate, p string) (string, bool) {
	p = absPath(p)
	for i := 0; i < 10; i++ {
		f, ok := m[p]
		if !ok || f.Mode.IsDir() {
			return "", false
		}
		if f.Link != "" {
			p = path.Join(path.Dir(p), f.Link)
			if strings.HasPrefix(f.Link, "/") {
				p = f.Link
			}
			continue
		}
		if f.UID == 1000 && f.Mode.Perm()&0400 == 0 || f.UID != 1000 && f.Mode.Perm()&4 == 0 {
			return "", false
		}
		return f.Data, true
	}
	return "", false
}

// modelWords is the phrase the chosen input method yields, or why it fails.
func (rn *Run) modelWords(r *Res) ([]string, string) {
	c := r.Cmd
	if c.InFile != nil && *c.InFile != "" {
		data, ok := readFile(r.Before, *c.InFile)
		if !ok {
			return nil, "word file unreadable"
		}
		words := strings.Fields(strings.ToLower(data))
		for _, w := range words {
			if _, ok := ref.Index[w]; !ok {
				return words, "word file holds an unknown word"
			}
		}
		return words, ""
	}
	switch {
	case c.Stdin == "pipe":
		data := ""
		for _, k := range c.Pipe {
			data += k.Data
		}
		return lineWords(data)
	case c.Stdin == "null" || c.Stdin == "closed":
		return nil, "no input"
	case c.Simple:
		return lineWords(cooked(c.Entry))
	}
	e := &ref.Editor{}
	for _, u := range c.Entry {
		for i := 0; i < len(u.Data); i++ {
			e.Key(u.Data[i])
		}
	}
	if !e.Done {
		return e.Words, "entry not completed"
	}
	return e.Words, ""
}

// cooked applies the terminal's line editing.
func cooked(us []core.Unit) string {
	var out, line []byte
	for _, u := range us {
		for i := 0; i < len(u.Data); i++ {
			switch b := u.Data[i]; b {
			case 0x7f:
				if len(line) > 0 {
					line = line[:len(line)-1]
				}
			case 0x15:
				line = nil
			case 3, 4, 0x1c:
				return string(out)
			case '\r', '\n':
				out = append(append(out, line...), '\n')
				line = nil
			default:
				line = append(line, b)
			}
		}
	}
	return string(out)
}

// oversized says that the input has a line longer than any terminal line: a
// program may refuse it or treat it like every other line.
const oversized = "oversized line"

func lineWords(data string) ([]string, string) {
	l := &ref.Lines{}
	over := false
	ls := strings.Split(data, "\n")
	for i, s := range ls {
		if i == len(ls)-1 && s == "" {
			break
		}
		if l.Done {
			break
		}
		if len(s) >= 4096 {
			over = true
		}
		l.Line(s)
	}
	if !l.Done {
		return l.Words, "input ended early"
	}
	if over {
		return l.Words, oversized
	}
	return l.Words, ""
}
