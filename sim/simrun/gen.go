package main

import (
	"fmt"
	"io/fs"
	"strings"
	"time"
	_ "time/tzdata"
	"zsim/core"

	"simrun/ref"
)

func sp(s string) *string { return &s }

// Kept is a phrase somebody wrote down.
type Kept struct {
	Words []string
	Pw    string // empty: plaintext
	Seed  [16]byte
	Off   uint32
	File  string // the word file it was saved to
}

// makePhrase builds a phrase from the specification (not from the tool).
func (rn *Run) makePhrase(c *Choices) *Kept {
	k := &Kept{}
	copy(k.Seed[:], rn.seedBytes(c))
	k.Off = rn.offset(c)
	if c.P("enc", 1, 2) {
		k.Pw = rn.password(c, "pw")
		salt := uint32(c.Int64("salt", func(r *core.PRNG) int64 { return int64(r.Uint64() & (1<<19 - 1)) }))
		switch c.W("saltkind", 6, 1, 1, 1, 1) {
		case 4:
			salt = []uint32{1<<19 - 2, 1, 1 << 18, 1<<18 - 1, 0x7f800, 0x00700, 0xff, 0x7ff00, 0x55555, 0x2aaaa}[c.N("salted", 10)]
		case 1:
			salt = 0
		case 2:
			salt = 1<<19 - 1
		case 3:
			salt &= 0xff
		}
		k.Words = ref.EncodeEnc(k.Seed, k.Off, []byte(k.Pw), salt&(1<<19-1), rn.kdf)
	} else {
		k.Words = ref.EncodePlain(k.Seed, k.Off)
	}
	return k
}

func (rn *Run) seedBytes(c *Choices) []byte {
	b := c.R("seed").Bytes(16)
	switch c.W("seedkind", 10, 2, 1, 1, 1, 4) {
	case 5:
		r := c.R("seedshape")
		switch r.Intn(7) {
		case 0: // trailing zeros
			for i, n := 0, 1+r.Intn(15); i < n; i++ {
				b[15-i] = 0
			}
		case 1: // a single bit
			k := r.Intn(128)
			b = make([]byte, 16)
			b[k/8] = 1 << uint(k%8)
		case 2: // all but a single bit
			k := r.Intn(128)
			for i := range b {
				b[i] = 0xff
			}
			b[k/8] ^= 1 << uint(k%8)
		case 3: // a repeating pattern, so that words repeat
			n := []int{1, 2, 3, 4, 6}[r.Intn(5)]
			for i := n; i < 16; i++ {
				b[i] = b[i-n]
			}
		case 4: // a run of zeros or ones somewhere
			at, n := r.Intn(128), 1+r.Intn(60)
			v := r.Intn(2) == 0
			for k := at; k < at+n && k < 128; k++ {
				b[k/8] &^= 1 << uint(7-k%8)
				if v {
					b[k/8] |= 1 << uint(7-k%8)
				}
			}
		case 5: // leading and trailing ones
			for i, n := 0, 1+r.Intn(8); i < n; i++ {
				b[i], b[15-i] = 0xff, 0xff
			}
		case 6: // the top bit
			b = make([]byte, 16)
			b[0] = 0x80
		}
	case 1: // leading zero bytes
		for i, n := 0, 1+c.N("lead", 15); i < n; i++ {
			b[i] = 0
		}
	case 2:
		b = make([]byte, 16)
	case 3:
		for i := range b {
			b[i] = 0xff
		}
	case 4: // small
		for i := 0; i < 15; i++ {
			b[i] = 0
		}
	}
	return b
}

func (rn *Run) offset(c *Choices) uint32 {
	switch c.W("offkind", 8, 2, 2, 1, 2) {
	case 4:
		r := c.R("offshape")
		v := int64(r.Uint64() & ref.MaxOffset)
		switch r.Intn(5) {
		case 0: // low bits all ones or all zeros
			v |= 1<<uint(r.Intn(30)) - 1
		case 1:
			v &^= 1<<uint(r.Intn(30)) - 1
		case 2: // around the end of 32-bit Unix time
			v = 474952448 - 3 + int64(r.Intn(6))
		case 3: // days of the epoch
			v -= v % 86400
		case 4: // words of zeros or ones
			v ^= v & (0xfff << uint(r.Intn(20)))
		}
		if v < 0 || v > ref.MaxOffset {
			v = ref.MaxOffset
		}
		return uint32(v)
	case 1:
		return uint32(c.N("off", 3))
	case 2:
		return uint32(ref.MaxOffset - c.N("off", 3))
	case 3:
		return 1 << uint(c.N("off", 31))
	}
	return uint32(c.Int64("off", func(r *core.PRNG) int64 { return int64(r.Uint64() & ref.MaxOffset) })) & ref.MaxOffset
}

const pwChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\\"

// password draws a password a terminal can carry.
func (rn *Run) password(c *Choices, label string) string {
	r := c.R(label)
	pick := func(n int, f func() byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = f()
		}
		return string(b)
	}
	ascii := func() byte { return pwChars[r.Intn(len(pwChars))] }
	switch c.W(label+"kind", 6, 1, 2, 2, 1, 1, 1, 1, 1, 3, 1) {
	case 9: // something at either end that a program may be tempted to trim
		l := []string{"\t", "\v", "\f", " ", "\u00a0", "\u2003", "\u3000", "\x00", "\ufeff", "\"", "'", "\\", "%", "\xff", "-", "\u0085", "=", "#", ","}
		s := pick(1+r.Intn(12), ascii)
		if r.Intn(2) == 0 {
			s = l[r.Intn(len(l))] + s
		}
		return s + l[r.Intn(len(l))]
	case 10: // letters Unicode can write in several ways
		l := []string{"\u00e9", "e\u0301", "\u212b", "\u00c5", "\U0001f511", "\u00df", "\u0130", "\ufb01", "\u1e9e", "\uff41"}
		s := pick(1+r.Intn(5), ascii)
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			s += l[r.Intn(len(l))]
		}
		return s
	case 7: // NUL bytes
		return pick(1+r.Intn(9), ascii) + "\x00" + pick(r.Intn(9), ascii) + "\x00" + pick(1+r.Intn(3), ascii)
	case 8: // around block sizes
		return pick([]int{8, 16, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257}[r.Intn(17)], ascii)
	case 1:
		return pick(1, ascii)
	case 2: // spaces around
		return " " + pick(8+r.Intn(8), ascii) + "  "
	case 3: // high bytes
		return pick(6+r.Intn(30), func() byte { return byte(0x80 + r.Intn(0x80)) })
	case 4: // long
		return pick(200+r.Intn(900), ascii)
	case 5: // words of the list
		return ref.Words[r.Intn(4096)] + " " + ref.Words[r.Intn(4096)] + " " + ref.Words[r.Intn(4096)]
	case 6: // control bytes a password may hold
		return "p\t\x01\x02" + pick(8, ascii) + "\x1b[D\x05"
	}
	return pick(7+r.Intn(14), ascii)
}

// wrongPw is a password other than pw, often close to it.
func (rn *Run) wrongPw(c *Choices, label, pw string) string {
	switch c.W(label+"how", 4, 2, 2, 2, 1, 1, 1, 2, 1, 1, 2) {
	case 10: // the same to a program that trims or folds
		r := c.R(label + "trim")
		var s string
		switch r.Intn(7) {
		case 0:
			s = strings.TrimRight(pw, " \t\v\f\x00")
		case 1:
			s = strings.TrimLeft(pw, " \t\v\f\x00")
		case 2:
			s = pw + []string{"\t", "\v", "\f", "\x00", "\u00a0", "\"", " "}[r.Intn(7)]
		case 3:
			s = []string{"\t", "\v", "\f", "\x00", "\u00a0", "\"", " "}[r.Intn(7)] + pw
		case 4:
			s = strings.ReplaceAll(strings.ReplaceAll(pw, "e\u0301", "\u00e9"), "\u212b", "\u00c5")
		case 5:
			s = strings.ToValidUTF8(pw, "\ufffd")
		case 6:
			s = strings.Join(strings.Fields(pw), " ")
		}
		if s != pw && s != "" {
			return s
		}
	case 7: // the same up to some byte
		r := c.R(label + "cut")
		n := r.Intn(len(pw) + 1)
		if i := strings.IndexByte(pw, 0); i > 0 && r.Intn(2) == 0 {
			n = i
		} else if r.Intn(2) == 0 {
			for _, m := range []int{256, 128, 72, 64, 32, 16, 8} {
				if m < len(pw) {
					n = m
					break
				}
			}
		}
		s := pw[:n]
		if r.Intn(2) == 0 {
			s += "\x00" + string(rune('a'+r.Intn(26)))
		}
		if s != pw && s != "" {
			return s
		}
	case 8: // one bit away
		if len(pw) > 0 {
			r := c.R(label + "bit")
			b := []byte(pw)
			b[r.Intn(len(b))] ^= 0x80
			if b[0]&0x7f != 0 && !strings.ContainsAny(string(b), "\x08\x7f\x15\x04\x03\x1c\r\n") {
				return string(b)
			}
		}
	case 9: // twice
		return pw + pw
	case 1:
		return pw + "x"
	case 2:
		if len(pw) > 1 {
			return pw[:len(pw)-1]
		}
	case 3:
		if s := swapCase(pw); s != pw {
			return s
		}
	case 4:
		if s := strings.TrimSpace(pw); s != pw && s != "" {
			return s
		}
		return pw + " "
	case 5:
		return ""
	case 6:
		if len(pw) > 2 {
			b := []byte(pw)
			b[0], b[1] = b[1], b[0]
			if string(b) != pw {
				return string(b)
			}
		}
	}
	s := rn.password(c, label)
	if s == pw {
		s += "y"
	}
	return s
}

func swapCase(s string) string {
	b := []byte(s)
	for i, x := range b {
		if x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' {
			b[i] = x ^ 0x20
		}
	}
	return string(b)
}

var zones []*time.Location

func init() {
	zones = []*time.Location{time.UTC}
	for _, o := range []int{3600, -18000, 19800, 50400, -43200, 20700} {
		zones = append(zones, time.FixedZone(fmt.Sprintf("Z%+d", o), o))
	}
	for _, n := range []string{"Europe/Berlin", "America/New_York", "Australia/Lord_Howe", "America/Santiago"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		zones = append(zones, l)
	}
}

func zoneOf(i int) *time.Location { return zones[i] }

// machine chooses the surroundings of a command.
func (rn *Run) machine(c *Choices, cmd *Cmd) {
	m := c.Sub("m")
	cmd.Rows, cmd.Cols = 24, 80
	switch m.W("size", 10, 2, 1) {
	case 1:
		cmd.Cols = uint16(m.N("cols", 300))
		cmd.Rows = uint16(m.N("rows", 60))
	case 2:
		cmd.SizeErr = true
	}
	cmd.StartRow = []int{0, 10, 22, 23, 1000}[m.W("startrow", 2, 1, 1, 1, 4)]
	cmd.StderrTTY = !m.P("errfile", 1, 3)
	cmd.StdoutTTY = m.P("outtty", 1, 4)
	cmd.TZ = m.W("tz", 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
	cmd.NCPU = []int{8, 1, 2, 64}[m.W("cpu", 3, 1, 1, 1)]
	cmd.Umask = []uint32{022, 077, 0, 027, 0377, 0177, 02}[m.W("umask", 4, 2, 2, 1, 1, 1, 1)]
	cmd.ArgForm = m.N("form", 16)
	if m.P("env", 1, 4) {
		r := m.R("envr")
		cmd.Env = map[string]string{}
		for _, k := range []string{"TERM", "LANG", "LC_ALL", "TZ", "COLUMNS", "LINES", "NO_COLOR", "HOME", "USER", "GODEBUG", "GOMAXPROCS", "SOURCE_DATE_EPOCH", "MNEMONIKEY_SEED", "TMPDIR"} {
			if r.Intn(2) == 0 {
				cmd.Env[k] = []string{"", "dumb", "1", "/nonexistent", "tr_TR.UTF-8", "Asia/Kathmandu", "1600000000"}[r.Intn(7)]
			}
		}
	}
	if m.P("envany", 1, 12) { // whatever variable the tool might consult is set
		cmd.EnvAny = []string{"1", "true", "secret", "signing", "/work/in1", "65", "no", "2024-01-01T00:00:00Z"}[m.N("envval", 8)]
	}
	cmd.End = []string{"ctrlc", "hangup", "ctrld"}[m.W("end", 5, 2, 2)]
	cmd.NoHup = m.P("nohup", 1, 2)
	if m.P("slow", 1, 5) {
		cmd.PwDelay = int64(1+m.N("slowby", 4000)) * 1e9
	}
}

var nameWords = []string{"bob", "Alice", "Ünïcödé", "O'Brien", "name with spaces", "x", "日本語", "<angle>", "\"quoted\"", "a@b", "$HOME ${USER}", "100%s %d%%", "~", "back\\slash\\n", "semi;colon|&", "-dash", "tab\tin", "CAPS lower", "a  b", "#1"}

// identity chooses name, email, ttl and the export subset.
func (rn *Run) identity(c *Choices, cmd *Cmd) {
	i := c.Sub("id")
	switch i.W("name", 3, 4, 2, 1, 1, 1) {
	case 1:
		cmd.Name = sp(nameWords[i.N("nw", len(nameWords))])
	case 2: // lengths around the OpenPGP packet length boundaries
		n := []int{1, 2, 63, 64, 189, 190, 191, 192, 193, 194, 255, 256, 1000, 8382, 8383, 8384, 8385, 20000}[i.N("len", 18)]
		cmd.Name = sp(strings.Repeat("n", n))
	case 3:
		cmd.Name = sp("")
	case 4:
		cmd.Name = sp("  padded\t")
	case 5:
		r := i.R("nb")
		b := r.Bytes(1 + r.Intn(40))
		for k := range b {
			if b[k] == 0 {
				b[k] = 1
			}
		}
		cmd.Name = sp(string(b))
	}
	switch i.W("email", 4, 3, 1, 1, 1) {
	case 1:
		cmd.Email = sp(fmt.Sprintf("user%d@example.org", i.N("en", 1000)))
	case 2:
		cmd.Email = sp("")
	case 3:
		cmd.Email = sp(strings.Repeat("e", 1+i.N("el", 300)) + "@x")
	case 4:
		cmd.Email = sp([]string{"$USER@$HOST", "%s@x", "Bob@Example.ORG", "<a@b>", "a b@c", "é@ü", " sp@x "}[i.N("eo", 7)])
	}
	if i.P("alike", 1, 10) { // name and email that resemble each other
		e := "user@example.org"
		switch i.N("alikehow", 7) {
		case 0:
			cmd.Name, cmd.Email = sp(e), sp(e)
		case 1:
			cmd.Name, cmd.Email = sp("User <"+e+">"), sp(e)
		case 2:
			cmd.Name, cmd.Email = sp("<"+e+">"), sp(e)
		case 3:
			cmd.Name, cmd.Email = sp(strings.ToUpper(e)), sp(e)
		case 4:
			cmd.Name, cmd.Email = sp("user"), sp(e)
		case 5:
			cmd.Name, cmd.Email = sp("User (comment)"), sp(e)
		case 6:
			cmd.Name, cmd.Email = sp("User"), sp("<"+e+">")
		}
	}
	if i.P("ttl", 1, 2) {
		cmd.TTL = sp(rn.ttl(i))
	}
	if i.P("only", 1, 2) {
		cmd.Only = sp(rn.only(i))
	}
	cmd.Verbose = i.P("verbose", 1, 3)
}

func (rn *Run) ttl(i *Choices) string {
	u := "dwmyDWMY"[i.N("unit", 8)]
	switch i.W("ttlkind", 12, 3, 2, 1, 1, 1) {
	case 1: // near the 32-bit second limit
		secs := map[byte]int64{'d': 86400, 'w': 604800, 'm': 2628000, 'y': 31536000}[u|0x20]
		return fmt.Sprintf("%d%c", (1<<32)/secs-int64(i.N("near", 3))+1, u)
	case 2:
		return []string{"0d", "0y", "00w", "-1d", "1", "d", "1dd", "1.5d", " 1d", "1d ", "1h", "+3d", "0x10d", "1e3d", "１d", "1 d", "\u0661d",
			"0", "00", "never", "none", "-", "0s", "0.0d", "0m0d", "-0d", "1d1d", "1year", "", "1_0d", "0b1d", "d1", "1,0d", "1d\n", "\t1d", "1m\x00", "i", "inf", "1D ", "∞y"}[i.N("bad", 40)]
	case 3: // overflow of 64-bit nanoseconds or of the product
		return fmt.Sprintf("%d%c", []uint64{106752, 213504, 213505, 15251, 30501, 292, 293, 585, 1169, 9223372036, 18446744073, 18446744073709551615, 1 << 63, 213503982334, 4294967296}[i.N("big", 15)], u)
	case 4:
		return fmt.Sprintf("%s%c", "99999999999999999999999999", u)
	case 5:
		return fmt.Sprintf("000%d%c", 1+i.N("q", 60), u)
	}
	return fmt.Sprintf("%d%c", 1+i.N("q", 60), u)
}

func (rn *Run) only(i *Choices) string {
	all := []string{"master", "encryption", "authentication", "signing"}
	if i.P("onlybad", 1, 12) {
		return []string{"Master", "encryption,", ",", "signing authentication", "encrypt", "master, signing", "all", "auth",
			"master,signing,encryption,x", "master,signing,encryption,authentication,certify", "signing,signing,", "none", "signing,,encryption",
			"authentication,encryption,signing,master,Signing", "master,master,bogus", "sign,master", "encryption,authentication,auth",
			"encryptions", "masters", "signing ", "master\t", " signing", "master signing", "master;signing", "signing\n", "mas", "m", "masterx,signing", "MASTER,signing", "signing,Master", "subkeys", "*", "master,signing,", "ﬁ", "signing\x00"}[i.N("ob", 35)]
	}
	r := i.R("onlyr")
	switch i.W("onlyshape", 8, 1, 1) {
	case 1: // everything but the master
		return []string{"encryption,authentication,signing", "signing,encryption,authentication"}[r.Intn(2)]
	case 2: // named several times
		t := all[r.Intn(4)]
		l := []string{t, t, t, t, t}[:2+r.Intn(4)]
		if r.Intn(2) == 0 {
			l = append(l, all[r.Intn(4)])
		}
		return strings.Join(l, ",")
	}
	var l []string
	for len(l) == 0 {
		for _, k := range r.Perm(4) {
			if r.Intn(2) == 0 {
				l = append(l, all[k])
			}
		}
	}
	if r.Intn(6) == 0 {
		l = append(l, l[0])
	}
	return strings.Join(l, ",")
}

// newPassword sets up the confirmation dialogue that ends with pw.
func (rn *Run) newPassword(c *Choices, pw string) [][2]string {
	var l [][2]string
	retries := c.W("retries", 12, 4, 2, 1)
	if retries == 3 {
		retries = 3 + c.N("many", 6)
		if c.P("verymany", 1, 40) {
			retries = 257 + c.N("howmany", 60)
		}
	}
	for i := 0; i < retries; i++ {
		x := c.Sub(fmt.Sprintf("try%d", i))
		switch x.W("how", 3, 2, 2) {
		case 0:
			l = append(l, [2]string{pw, rn.wrongPw(x, "w", pw)})
		case 1:
			l = append(l, [2]string{"", ""})
		case 2:
			l = append(l, [2]string{rn.wrongPw(x, "w", pw), pw})
		}
	}
	// an attempt whose first entry is empty is asked again at once
	return append(l, [2]string{pw, pw})
}

// decAttempts sets up the decryption dialogue for a phrase.
func (rn *Run) decAttempts(c *Choices, k *Kept) []string {
	var l []string
	if k.Pw == "" {
		return nil
	}
	wrong := c.W("wrong", 12, 4, 2, 1, 1)
	if wrong == 4 {
		wrong = 4 + c.N("many", 9)
		if c.P("verymany", 1, 20) { // the same one: one in 32 others would be let through
			wrong = 257 + c.N("howmany", 60)
			l = append(l, rn.wrongPw(c, "wrong0", k.Pw))
			for i := 1; i < wrong; i++ {
				l = append(l, l[0])
			}
			wrong = 0
		}
	}
	for i := 0; i < wrong; i++ {
		l = append(l, rn.wrongPw(c, fmt.Sprintf("wrong%d", i), k.Pw))
	}
	if c.P("giveup", 1, 12) {
		return l
	}
	return append(l, k.Pw)
}

// input chooses how the words reach the command.
func (rn *Run) input(c *Choices, cmd *Cmd, words []string, secret bool) {
	i := c.Sub("in")
	how := i.W("how", 3, 2, 2, 3)
	if secret && how == 1 && !i.P("pipepw", 1, 8) {
		how = 0 // a password needs the terminal
	}
	switch how {
	case 0:
		rn.files++
		p := fmt.Sprintf("/work/in%d", rn.files)
		n := rn.w.FS.Put(p, []byte(rn.fileText(i, words)), 0600)
		if i.P("fifo", 1, 8) {
			rn.fifo(i, n)
		}
		cmd.InFile = sp(p)
		if !secret && i.P("nostdin", 1, 3) {
			cmd.Stdin = []string{"null", "closed", "pipe"}[i.N("stdin", 3)]
		}
		if i.P("alsosimple", 1, 6) {
			cmd.Simple = true
		}
	case 1:
		cmd.Stdin = "pipe"
		cmd.Pipe = rn.pipeOf(i, rn.lineText(i, words))
		cmd.Simple = i.P("simple", 1, 2)
	case 2:
		cmd.Simple = true
		cmd.Entry = rn.lineUnits(i, rn.lineText(i, words))
	default:
		cmd.Entry = rn.rawUnits(i, rn.rawKeys(i, words))
	}
}

func mixCase(r *core.PRNG, w string, kind int) string {
	switch kind {
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToUpper(w[:1]) + w[1:]
	case 3:
		b := []byte(w)
		for i := range b {
			if r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return w
}

// fileText writes words as a word file with any whitespace the format allows.
func (rn *Run) fileText(c *Choices, words []string) string {
	if !c.P("fancy", 1, 2) {
		return strings.Join(words, " ") + "\n"
	}
	r := c.R("fr")
	k := c.N("case", 4)
	var b strings.Builder
	ws := []string{" ", "\n", "\t", "  ", "\r\n", " \n", "\n\n"}
	if r.Intn(5) == 0 { // the words far apart
		n := 200 + r.Intn(6000)
		ws = append(ws, strings.Repeat(" ", n), strings.Repeat("\n", n))
	}
	if r.Intn(2) == 0 {
		b.WriteString(ws[r.Intn(len(ws))])
	}
	for i, w := range words {
		if i > 0 {
			b.WriteString(ws[r.Intn(len(ws))])
		}
		b.WriteString(mixCase(r, w, k))
	}
	switch r.Intn(3) {
	case 0:
		b.WriteString("\n")
	case 1:
		b.WriteString(strings.Repeat(" \n", r.Intn(3000)))
	}
	return b.String()
}

var badLines = []string{"", "   ", "zzzz", "notaword", "1234", "abandon abandon", "word!", "\x1b[D", "ABC DEF", "é", "q"}

// lineText writes words one per line, with lines that must be refused between.
func (rn *Run) lineText(c *Choices, words []string) string {
	r := c.R("lr")
	noise := c.W("noise", 3, 2)
	k := c.N("case", 4)
	ends := []string{"\n", "\r\n"}[c.W("crlf", 4, 1)]
	var b strings.Builder
	for i, w := range words {
		for noise > 0 && r.Intn(4) == 0 {
			if i == 0 && r.Intn(2) == 0 { // an unsupported first word
				b.WriteString(ref.Words[512+r.Intn(4096-512)] + ends)
			} else {
				b.WriteString(badLines[r.Intn(len(badLines))] + ends)
			}
		}
		if noise > 0 && r.Intn(3) == 0 {
			b.WriteString(" \t"[:1+r.Intn(2)])
			if r.Intn(8) == 0 {
				b.WriteString(strings.Repeat(" ", r.Intn(300)))
			}
		}
		b.WriteString(mixCase(r, w, k))
		if noise > 0 && r.Intn(3) == 0 {
			b.WriteString("  ")
		}
		if i == len(words)-1 && noise > 0 && r.Intn(3) == 0 {
			break // no final line end
		}
		b.WriteString(ends)
	}
	return b.String()
}

// pipeOf splits data into chunks that arrive over time.
func (rn *Run) pipeOf(c *Choices, data string) []core.Chunk {
	r := c.R("chunks")
	var out []core.Chunk
	switch c.W("split", 2, 2, 2) {
	case 0:
		return []core.Chunk{{Data: data}}
	case 1:
		for i, n := 0, len(data); i < n; i++ {
			out = append(out, core.Chunk{Data: data[i : i+1], Delay: int64(r.Intn(2)) * int64(r.Intn(5e8))})
		}
		return out
	}
	for len(data) > 0 {
		n := 1 + r.Intn(len(data))
		if n > 30 && r.Intn(2) == 0 {
			n = 1 + r.Intn(30)
		}
		out = append(out, core.Chunk{Data: data[:n], Delay: int64(r.Intn(3)) * int64(r.Intn(2e9))})
		data = data[n:]
	}
	return out
}

// lineUnits types lines on a cooked terminal, sometimes pasted together.
func (rn *Run) lineUnits(c *Choices, text string) []core.Unit {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	if !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	r := c.R("lu")
	paste := c.P("paste", 1, 3)
	typo := c.P("typo", 1, 3)
	var out []core.Unit
	cur := ""
	for _, l := range strings.SplitAfter(text, "\n") {
		if l == "" {
			continue
		}
		if typo && r.Intn(4) == 0 {
			if r.Intn(2) == 0 {
				l = "xx\x7f\x7f" + l
			} else {
				l = "oops\x15" + l
			}
		}
		cur += strings.ReplaceAll(l, "\n", "\r")
		if !paste || r.Intn(3) == 0 {
			out = append(out, core.Unit{Data: cur, Tag: "word", Delay: int64(r.Intn(3e9))})
			cur = ""
		}
	}
	if cur != "" {
		out = append(out, core.Unit{Data: cur, Tag: "word"})
	}
	return out
}

var noiseKeys = []string{"A", "Z", "D", "0", "9", "!", "-", "\x1b[A", "\x1b[B", "\x1b[C", "\x1bOP", "\x1b[3~", "\x1b", "[", "\x00", "\x01", "\xc3\xa9", "\xff", "*", "{", "@", "_", "\x1bD", "O", "[D", "OD"}

const leftKey = "\x1b[D"

// rawKeys types words at the interactive prompt: completed, abbreviated,
// corrected and taken back in every way the prompt offers.
func (rn *Run) rawKeys(c *Choices, words []string) []string {
	keys := rn.rawKeys1(c, words)
	// nobody types on once the last word is accepted: it would end up in the
	// next prompt
	e := &ref.Editor{}
	for i, k := range keys {
		for j := 0; j < len(k); j++ {
			e.Key(k[j])
			if e.Done || e.Aborted {
				return append(keys[:i:i], k[:j+1])
			}
		}
	}
	return keys
}

func (rn *Run) rawKeys1(c *Choices, words []string) []string {
	r := c.R("keys")
	style := c.W("style", 3, 5)
	left := []string{leftKey, "\x1bOD"}[c.N("left", 2)]
	var keys []string
	add := func(s string) {
		for _, x := range strings.Split(s, "") {
			keys = append(keys, x)
		}
	}
	enter := func() {
		if r.Intn(2) == 0 {
			keys = append(keys, " ")
		} else {
			keys = append(keys, "\r")
		}
	}
	typeWord := func(w string) {
		if style == 0 {
			add(w)
			enter()
			return
		}
		n := len(w) // shortest prefix whose first completion is w
		for i := 1; i < len(w); i++ {
			if f := ref.Completions(w[:i]); len(f) > 0 && f[0] == w {
				n = i
				break
			}
		}
		if n < len(w) && r.Intn(2) == 0 {
			n += r.Intn(len(w) - n + 1)
		} else if r.Intn(2) == 0 {
			n = len(w)
		}
		for i := 0; i < n; i++ {
			if r.Intn(150) == 0 { // leaning on the keyboard, and correction
				n := 5 + r.Intn(45)
				for k := 0; k < n; k++ {
					add(string(rune('a' + r.Intn(26))))
				}
				for k := 0; k < n; k++ {
					keys = append(keys, "\x7f")
				}
			}
			if r.Intn(10) == 0 { // typo and correction
				t := string(rune('a' + r.Intn(26)))
				add(t)
				if r.Intn(3) == 0 {
					keys = append(keys, "\r")
					// may have submitted a word: the caller's model decides
				}
				keys = append(keys, "\x7f")
			}
			if r.Intn(12) == 0 {
				keys = append(keys, noiseKeys[r.Intn(len(noiseKeys))])
			}
			add(w[i : i+1])
		}
		if r.Intn(4) == 0 {
			keys = append(keys, "\t")
		}
		enter()
	}
	// the model tells what the keys typed so far amount to
	state := func() *ref.Editor {
		e := &ref.Editor{}
		for _, k := range keys {
			for i, n := 0, len(k); i < n; i++ {
				e.Key(k[i])
			}
		}
		return e
	}
	if style == 0 {
		for _, w := range words {
			typeWord(w)
		}
		return keys
	}
	for guard := 0; guard < 200; guard++ {
		e := state()
		if e.Done {
			return keys
		}
		good := 0
		for good < len(e.Words) && good < len(words) && e.Words[good] == words[good] {
			good++
		}
		switch {
		case good < len(e.Words):
			keys = append(keys, left)
		case e.Cur != "":
			for range e.Cur {
				keys = append(keys, "\x7f")
			}
		case good == len(words):
			return keys
		case good > 0 && r.Intn(12) == 0 && guard < 100:
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				keys = append(keys, left)
			}
		case r.Intn(10) == 0 && guard < 100 && (good+2 < len(words)):
			typeWord(ref.Words[r.Intn(4096)])
		case r.Intn(25) == 0 && guard < 100: // much that is no word, and taken back
			n := 1 + r.Intn(40)
			for i := 0; i < n; i++ {
				keys = append(keys, string(rune('a'+r.Intn(26))))
			}
			if r.Intn(2) == 0 {
				keys = append(keys, "\r")
			}
			for i := 0; i < n; i++ {
				keys = append(keys, "\x7f")
			}
		case r.Intn(12) == 0:
			keys = append(keys, []string{"\x7f", "\t", " ", "\r", "zzz\r\x7f\x7f\x7f", "D", "ABD"}[r.Intn(7)])
		default:
			typeWord(words[good])
		}
	}
	return keys
}

// rawUnits turns keys into bursts; the last key always comes alone.
func (rn *Run) rawUnits(c *Choices, keys []string) []core.Unit {
	r := c.R("bursts")
	burst := c.W("burst", 3, 2, 2)
	var out []core.Unit
	cur := ""
	flush := func() {
		if cur != "" {
			out = append(out, core.Unit{Data: cur, Tag: "word", Delay: int64(r.Intn(2)) * int64(r.Intn(2e9))})
			cur = ""
		}
	}
	for i, k := range keys {
		if i == len(keys)-1 {
			flush()
		}
		cur += k
		if burst == 0 || burst == 1 && r.Intn(6) == 0 {
			flush()
		}
	}
	flush()
	return out
}

// fifo turns a file into a named pipe that somebody writes the data into.
func (rn *Run) fifo(c *Choices, n *core.Inode) {
	n.Mode |= fs.ModeNamedPipe
	n.Chunks = rn.pipeOf(c, string(n.Data))
}
