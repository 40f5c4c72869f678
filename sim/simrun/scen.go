package main

import (
	"fmt"
	"io/fs"
	"strings"
	"zsim/core"

	"simrun/ref"
)

// do runs and judges one command.
func (rn *Run) do(c *Choices, cmd *Cmd) *Delivered {
	r := rn.exec(c, cmd)
	d := rn.judge(r)
	rn.say("%s -> %s faults=%v", strings.Join(cmd.args()[1:], " "), endOf(r), r.Fired)
	return d
}

func succeeded(d *Delivered) bool { return d.Res.Out.Exited && d.Res.Out.Code == 0 }

// clock puts the wall clock somewhere.
func (rn *Run) clock(c *Choices) {
	var s int64
	switch c.W("era", 8, 2, 2, 1, 1, 1) {
	case 0:
		s = 1672531200 + c.Int64("t", func(r *core.PRNG) int64 { return int64(r.Uint64() % (1 << 31)) })
	case 1: // around the first encodable second
		s = ref.Epoch + int64(c.N("near", 5)) - 2
	case 2: // around the last
		s = ref.Epoch + ref.MaxOffset + int64(c.N("near", 5)) - 2
	case 3: // 32-bit boundaries
		s = []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5}[c.N("edge", 5)]
	case 4:
		s = []int64{0, 86400, 1000000000, 1600000000, ref.Epoch - 1}[c.N("old", 5)]
	case 5:
		s = []int64{1 << 33, 6000000000, 9000000000}[c.N("far", 3)]
	}
	ns := c.Int64("ns", func(r *core.PRNG) int64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return 999999999
		}
		return int64(r.Intn(1e9))
	})
	rn.w.Wall = s*1e9 + ns - rn.w.Mono
}

// sane puts the clock inside the encodable range.
func (rn *Run) sane(c *Choices) {
	s := 1672531200 + c.Int64("t", func(r *core.PRNG) int64 { return int64(r.Uint64() % (1<<31 - 4_000_000)) })
	rn.w.Wall = s*1e9 + c.Int64("ns", func(r *core.PRNG) int64 { return int64(r.Intn(1e9)) }) - rn.w.Mono
}

// later moves the clock between commands, forwards or backwards.
func (rn *Run) later(c *Choices) {
	d := c.Int64("later", func(r *core.PRNG) int64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return int64(r.Intn(1e9)) * 3e9 // decades
		case 2:
			return -int64(r.Intn(1e9)) * 2e9
		}
		return int64(r.Intn(1e9)) * 1e5
	})
	rn.w.Wall += d
}

func (rn *Run) generateCmd(c *Choices) *Cmd {
	cmd := &Cmd{Verb: "generate"}
	rn.machine(c, cmd)
	rn.identity(c, cmd)
	if c.P("encphrase", 2, 5) {
		cmd.EncPhrase = true
		cmd.NewPh = rn.newPassword(c.Sub("ph"), rn.password(c, "phpw"))
	}
	switch c.W("entropy", 6, 2, 2) {
	case 1:
		rn.entropy(c.Sub("ent"), cmd)
	case 2: // system randomness with unusual values
		rn.w.Secure.Fixed = rn.seedBytes(c.Sub("rnd"))
		rn.edgeSalt(c)
	}
	if c.P("outfile", 2, 5) {
		rn.files++
		cmd.OutFile = sp(fmt.Sprintf([]string{"/work/words%d", "words%d", "/home/user/w%d"}[c.N("outwhere", 3)], rn.files))
		if strings.HasPrefix(*cmd.OutFile, "/home") {
			rn.w.FS.MkdirAll("/home/user", 0700)
		}
	}
	return cmd
}

// edgeSalt makes the next bytes of system randomness unusual ones.
func (rn *Run) edgeSalt(c *Choices) {
	if k := c.W("edgesalt", 10, 1, 1, 1, 1, 1); k > 0 {
		rn.w.Secure.Fixed = append(rn.w.Secure.Fixed, []string{"\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00",
			"\xff\xff\xfe\xff", "\x00\x00\x01\x00", "\x00\xff\x00\xff"}[k-1]...)
	}
}

// entropy gives the command a user-chosen entropy source.
func (rn *Run) entropy(c *Choices, cmd *Cmd) {
	data := string(rn.seedBytes(c))
	switch c.W("len", 5, 3, 2, 1) {
	case 1:
		data += string(c.R("more").Bytes(1 + c.N("nmore", 5000)))
	case 2:
		data = data[:c.N("short", 16)]
	case 3:
		data = ""
	}
	if c.P("stdin", 1, 2) && !cmd.EncPhrase && !cmd.EncKeys {
		cmd.Entropy = sp("-")
		cmd.Stdin = "pipe"
		cmd.Pipe = rn.pipeOf(c, data)
		return
	}
	p := "/work/entropy"
	cmd.Entropy = sp(p)
	switch c.W("file", 8, 1, 1) {
	case 0:
		n := rn.w.FS.Put(p, []byte(data), 0600)
		if c.P("fifo", 1, 4) {
			rn.fifo(c, n)
		}
	case 1: // missing
		rn.w.FS.Del(p)
	case 2: // unreadable
		rn.w.FS.Put(p, []byte(data), 0)
	}
}

// scenLife: generate, then a history of conversions, recoveries, mistakes and
// crashes, then recover every phrase anybody kept.
func scenLife(rn *Run, c *Choices) {
	rn.faulty = true
	rn.sane(c)
	g := c.Sub("gen")
	gen := rn.generateCmd(g)
	if g.P("enckeys", 1, 14) {
		gen.EncKeys = true
		gen.NewKey = rn.newPassword(g.Sub("kp"), rn.password(g, "keypw"))
	}
	var kept []*Kept
	keep := func(d *Delivered) {
		if succeeded(d) && len(d.Phrase) > 0 && d.Want.OK {
			k := &Kept{Words: d.Phrase, Seed: d.Seed, Off: d.Offset}
			if d.Res.Cmd.EncPhrase {
				k.Pw = d.Want.PhPw
			}
			kept = append(kept, k)
		}
	}
	for i := 0; i < 3 && len(kept) == 0; i++ {
		cmd := *gen
		cmd.NoFaults = i == 2
		if i > 0 && cmd.OutFile != nil {
			cmd.OutFile = sp(*gen.OutFile + fmt.Sprint("-", i))
		}
		d := rn.do(c.Sub(fmt.Sprintf("g%d", i)), &cmd)
		keep(d)
		if !d.Want.OK {
			return
		}
		rn.later(c.Sub(fmt.Sprintf("g%d", i)))
		rn.bump(c.Sub(fmt.Sprintf("g%d", i)))
	}
	if len(kept) == 0 {
		return
	}
	n := c.N("steps", 4)
	for i := 0; i < n; i++ {
		s := c.Sub(fmt.Sprintf("s%d", i))
		k := kept[s.N("which", len(kept))]
		switch s.W("op", 4, 3, 2) {
		case 0:
			rn.do(s, rn.recoverCmd(s, k, gen))
		case 1:
			keep(rn.do(s, rn.convertCmd(s, k)))
		case 2:
			bad := *k
			bad.Words = rn.corrupt(s, k.Words)
			if s.P("conv", 1, 3) {
				rn.do(s, rn.convertCmd(s, &bad))
			} else {
				rn.do(s, rn.recoverCmd(s, &bad, gen))
			}
		}
		rn.later(s)
	}
	rn.finals(c.Sub("final"), kept, gen)
}

// bump brings the clock back into the usable range.
func (rn *Run) bump(c *Choices) {
	now := rn.w.Wall + rn.w.Mono
	if now < ref.Epoch*1e9 || now > (ref.Epoch+ref.MaxOffset-4_000_000)*1e9 {
		rn.sane(c)
	}
}

// finals recovers every kept phrase without faults and compares the exports.
func (rn *Run) finals(c *Choices, kept []*Kept, gen *Cmd) {
	rn.faulty = false
	for i, k := range kept {
		s := c.Sub(fmt.Sprintf("k%d", i))
		cmd := &Cmd{Verb: "recover"}
		rn.machine(s, cmd)
		cmd.Name, cmd.Email, cmd.TTL, cmd.Only = gen.Name, gen.Email, gen.TTL, gen.Only
		rn.input(s, cmd, k.Words, k.Pw != "")
		if cmd.Stdin == "pipe" && k.Pw != "" {
			cmd.Stdin, cmd.Simple = "tty", true
			cmd.Entry = rn.lineUnits(s, rn.lineText(s, k.Words))
		}
		if k.Pw != "" {
			cmd.Dec = []string{k.Pw}
		}
		d := rn.do(s, cmd)
		if succeeded(d) && d.Block != nil && strings.Join(d.Want.Input, " ") == strings.Join(k.Words, " ") && (d.Seed != k.Seed || d.Offset != k.Off) {
			rn.bad("C01 C02", "another key recovered", "phrase %v recovers seed %x offset %d, expected %x %d", k.Words, d.Seed, d.Offset, k.Seed, k.Off)
		}
	}
}

// recoverCmd recovers a phrase with the generating command's options or others.
func (rn *Run) recoverCmd(c *Choices, k *Kept, gen *Cmd) *Cmd {
	cmd := &Cmd{Verb: "recover"}
	rn.machine(c, cmd)
	if gen != nil && c.P("same", 1, 2) {
		cmd.Name, cmd.Email, cmd.TTL, cmd.Only = gen.Name, gen.Email, gen.TTL, gen.Only
	} else {
		rn.identity(c, cmd)
	}
	if c.P("idx", 1, 3) {
		rn.indices(c, cmd)
	}
	cmd.SelfCert = []string{"", "true", "false"}[c.W("selfcert", 4, 1, 2)]
	rn.input(c, cmd, k.Words, k.Pw != "")
	cmd.Dec = rn.decAttempts(c, k)
	return cmd
}

func (rn *Run) indices(c *Choices, cmd *Cmd) {
	one := func(l string) *string {
		switch c.W(l+"kind", 3, 4, 2, 1) {
		case 1:
			return sp(fmt.Sprint(c.N(l, 65536)))
		case 2:
			return sp([]string{"0", "1", "255", "256", "65535", "32768", "257"}[c.N(l, 7)])
		case 3:
			return sp([]string{"65536", "65537", "-1", "4294967296", "18446744073709551616", "x", "", "131072"}[c.N(l, 8)])
		}
		return nil
	}
	cmd.EncI, cmd.AuthI, cmd.SigI = one("enc"), one("auth"), one("sig")
}

func (rn *Run) convertCmd(c *Choices, k *Kept) *Cmd {
	cmd := &Cmd{Verb: "convert"}
	rn.machine(c, cmd)
	cmd.Verbose = c.P("verbose", 1, 4)
	rn.input(c, cmd, k.Words, k.Pw != "")
	cmd.Dec = rn.decAttempts(c, k)
	if c.P("encphrase", 1, 2) {
		cmd.EncPhrase = true
		cmd.NewPh = rn.newPassword(c.Sub("ph"), rn.password(c, "phpw"))
		if cmd.Stdin != "" && cmd.Stdin != "tty" && !c.P("nopwtty", 1, 6) {
			cmd.EncPhrase, cmd.NewPh = false, nil
		}
		rn.edgeSalt(c)
	}
	if c.P("outfile", 1, 2) {
		rn.files++
		cmd.OutFile = sp(fmt.Sprintf("/work/conv%d", rn.files))
		switch c.W("where", 8, 1, 1) {
		case 1: // onto the input file
			if cmd.InFile != nil {
				cmd.OutFile = sp(*cmd.InFile)
			}
		case 2:
			rn.w.FS.Put(*cmd.OutFile, []byte("old contents\n"), 0644)
		}
	}
	return cmd
}

// corrupt damages a phrase.
func (rn *Run) corrupt(c *Choices, words []string) []string {
	r := c.R("corrupt")
	w := append([]string{}, words...)
	switch c.W("damage", 4, 3, 3, 2, 2, 2, 3) {
	case 0: // another word
		w[r.Intn(len(w))] = ref.Words[r.Intn(4096)]
	case 1: // missing words
		n := 1 + r.Intn(3)
		w = w[:len(w)-n]
	case 2: // additional words
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			w = append(w, ref.Words[r.Intn(4096)])
		}
	case 3: // swapped
		i, j := r.Intn(len(w)), r.Intn(len(w))
		w[i], w[j] = w[j], w[i]
	case 4: // unsupported or other version
		if r.Intn(2) == 0 {
			w[0] = ref.Words[512+r.Intn(4096-512)]
		} else {
			w[0] = ref.Words[r.Intn(512)]
		}
	case 5: // dropped or duplicated in the middle
		i := r.Intn(len(w))
		if r.Intn(2) == 0 {
			w = append(w[:i], w[i+1:]...)
		} else {
			w = append(w[:i+1], w[i:]...)
		}
	case 6: // not in the list
		i := r.Intn(len(w))
		w[i] = nearWord(r, w[i])
	}
	return w
}

// nearWord is a word outside the list, often close to one in it.
func nearWord(r *core.PRNG, w string) string {
	for n := 0; n < 20; n++ {
		x := w
		switch r.Intn(8) {
		case 0: // cut short
			x = w[:1+r.Intn(len(w))]
		case 1: // a letter too many
			k := r.Intn(len(w) + 1)
			x = w[:k] + string(rune('a'+r.Intn(26))) + w[k:]
		case 2: // a letter missing
			k := r.Intn(len(w))
			x = w[:k] + w[k+1:]
		case 3: // another letter
			b := []byte(w)
			b[r.Intn(len(b))] = byte('a' + r.Intn(26))
			x = string(b)
		case 4: // two run together
			x = w + ref.Words[r.Intn(4096)]
		case 5: // letters exchanged
			b := []byte(w)
			if k := r.Intn(len(b)); k > 0 {
				b[k], b[k-1] = b[k-1], b[k]
			}
			x = string(b)
		case 6: // punctuation
			x = []string{w + ".", w + ",", "-" + w, w + "-", "1" + w, w + ";", "\"" + w + "\"", "1:" + w, "1." + w, "#" + w, w + ":"}[r.Intn(11)]
		case 7:
			x = []string{"zzzz", "notaword", "xyzzyx"}[r.Intn(3)]
		}
		if _, ok := ref.Index[x]; !ok && x != "" {
			return x
		}
	}
	return "zzzz"
}

// scenChain: one phrase through a history of conversions, failed attempts and
// crashes; every phrase handed out with success must still give the same key.
func scenChain(rn *Run, c *Choices) {
	rn.sane(c)
	k0 := rn.makePhrase(c.Sub("ph"))
	kept := []*Kept{k0}
	rn.faulty = c.P("faulty", 2, 3)
	n := 2 + c.N("steps", 4)
	for i := 0; i < n; i++ {
		s := c.Sub(fmt.Sprint("s", i))
		k := kept[len(kept)-1]
		if s.P("older", 1, 4) {
			k = kept[s.N("which", len(kept))]
		}
		cmd := rn.convertCmd(s, k)
		if k.File != "" && s.P("fromfile", 1, 2) { // the file an earlier step wrote
			cmd.InFile, cmd.Entry, cmd.Simple = sp(k.File), nil, false
			if cmd.Stdin == "pipe" {
				cmd.Stdin, cmd.Pipe = "", nil
			}
			if s.P("onto", 1, 10) {
				cmd.OutFile = sp(k.File)
			}
		}
		d := rn.do(s, cmd)
		rn.later(s)
		if succeeded(d) && len(d.Phrase) > 0 && d.Want.OK && d.Seed == k.Seed {
			x := &Kept{Words: d.Phrase, Seed: d.Seed, Off: d.Offset}
			if cmd.EncPhrase {
				x.Pw = d.Want.PhPw
			}
			if cmd.OutFile != nil && !d.Res.firedCat("rmfile", "mkfile", "mkdir") {
				x.File = *cmd.OutFile
			}
			kept = append(kept, x)
		}
	}
	gen := &Cmd{Only: sp("signing")}
	rn.finals(c.Sub("final"), kept, gen)
}

// scenCorrupt: damaged phrases and torn word files under every input method.
func scenCorrupt(rn *Run, c *Choices) {
	rn.sane(c)
	k := rn.makePhrase(c.Sub("ph"))
	rn.faulty = c.P("faulty", 1, 2)
	rn.focus = map[string]bool{"fs": true, "stdin": true}
	for i, n := 0, 1+c.N("times", 3); i < n; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		bad := *k
		switch s.W("kind", 5, 4, 2, 1) {
		case 0:
			bad.Words = rn.corrupt(s, k.Words)
		case 1: // a torn file, cut anywhere
			text := rn.fileText(s, k.Words)
			cut := s.N("cut", len(text))
			rn.w.FS.Put("/work/torn", []byte(text[:cut]), 0600)
			cmd := &Cmd{Verb: []string{"recover", "convert"}[s.N("verb", 2)], InFile: sp("/work/torn")}
			rn.machine(s, cmd)
			if k.Pw != "" {
				cmd.Dec = []string{k.Pw}
			}
			rn.do(s, cmd)
			continue
		case 2: // unreadable content
			r := s.R("junk")
			var data []byte
			switch s.W("junk", 2, 1, 1, 1, 1, 2) {
			case 0:
				data = r.Bytes(r.Intn(300))
			case 1:
				data = []byte(strings.Join(k.Words, " ") + " " + strings.Repeat("x", 70000))
			case 2:
				data = []byte(strings.Repeat("x", 70000) + " " + strings.Join(k.Words, " "))
			case 3:
				data = []byte(strings.Join(k.Words, "\x00"))
			case 4:
				data = []byte(strings.Join(k.Words, " ") + strings.Repeat(" "+k.Words[0], 200))
			case 5: // written down in other ways
				switch r.Intn(7) {
				case 0:
					data = []byte(strings.Join(k.Words, ","))
				case 1:
					data = []byte("1:" + strings.Join(k.Words, " "))
				case 2:
					for i, w := range k.Words {
						data = append(data, fmt.Sprintf("%d. %s\n", i+1, w)...)
					}
				case 3:
					for i, w := range k.Words {
						data = append(data, fmt.Sprintf("%d:%s\n", i+1, w)...)
					}
				case 4:
					data = []byte("[" + strings.Join(k.Words, " ") + "]")
				case 5:
					data = []byte("# phrase\n" + strings.Join(k.Words, " "))
				case 6:
					data = []byte(strings.Join(k.Words, " ") + ".")
				}
			}
			rn.w.FS.Put("/work/junk", data, 0600)
			cmd := &Cmd{Verb: []string{"recover", "convert"}[s.N("verb", 2)], InFile: sp("/work/junk")}
			rn.machine(s, cmd)
			if k.Pw != "" {
				cmd.Dec = []string{k.Pw}
			}
			rn.do(s, cmd)
			continue
		case 3: // the phrase itself, so that refusals are not the only outcome
		}
		var cmd *Cmd
		if s.P("conv", 1, 4) {
			cmd = rn.convertCmd(s, &bad)
		} else {
			cmd = rn.recoverCmd(s, &bad, nil)
		}
		rn.do(s, cmd)
	}
}

// scenEntry: word entry at the interactive prompt with arbitrary keys.
func scenEntry(rn *Run, c *Choices) {
	rn.sane(c)
	k := rn.makePhrase(c.Sub("ph"))
	rn.faulty = c.P("faulty", 1, 8)
	cmd := &Cmd{Verb: "recover"}
	rn.machine(c, cmd)
	cmd.Verbose = c.P("verbose", 1, 3)
	if k.Pw != "" {
		cmd.Dec = rn.decAttempts(c, k)
	}
	var keys []string
	if c.P("wild", 1, 2) {
		r := c.R("wild")
		n := r.Intn(400)
		alpha := []string{"\r", " ", "\t", "\x7f", leftKey, "\x1bOD", "D", "A", "\x1b", "[", "O", "1", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[H", "\x1b[F", "\x1bOC", "\x1bOH", "\x1b[3~", "\x1b[5~", "\x1bOP", "\x01", "\x17", "\xff", "\x00", "é"}
		e := &ref.Editor{}
		press := func(k string) {
			keys = append(keys, k)
			for i, n := 0, len(k); i < n; i++ {
				e.Key(k[i])
			}
		}
		for i := 0; i < n && !e.Done; i++ {
			switch x := r.Intn(10); {
			case x < 4:
				press(string(rune('a' + r.Intn(26))))
			case x < 6: // a plausible beginning, then submit
				w := ref.Words[r.Intn(4096)]
				if len(e.Words) == 0 {
					w = ref.Words[r.Intn(600)]
				}
				for _, b := range w[:1+r.Intn(len(w))] {
					press(string(b))
				}
				if r.Intn(2) == 0 {
					press("\r")
				}
			case x < 7 && len(e.Words) > 0 && r.Intn(3) == 0:
				press(leftKey)
			default:
				press(alpha[r.Intn(len(alpha))])
			}
		}
		if !e.Done {
			switch c.W("finish", 4, 2, 1) {
			case 0: // take everything back and type the phrase
				for len(e.Words) > 0 {
					press(leftKey)
				}
				for e.Cur != "" {
					press("\x7f")
				}
				for _, w := range k.Words {
					for _, b := range w {
						press(string(b))
					}
					press("\r")
				}
			case 1: // fill up with a matching checksum
				for e.Cur != "" {
					press("\x7f")
				}
				for !e.Done {
					w := ref.Words[r.Intn(512)]
					if len(e.Words) > 0 && len(e.Words) == e.Size-1 {
						for _, x := range ref.Words {
							if _, err := ref.Decode(append(append([]string{}, e.Words...), x)); err == nil {
								w = x
								break
							}
						}
					}
					for _, b := range w {
						press(string(b))
					}
					press(" ")
				}
				cmd.Dec = []string{"s0me Passw0rd", "an0ther#1", "th1rd One"}
			case 2: // give up
				if r.Intn(2) == 0 {
					press([]string{"\x03", "\x04"}[r.Intn(2)])
				}
			}
		} else {
			cmd.Dec = append(cmd.Dec, "pa55 One", "pa55 Two")
		}
	} else {
		keys = rn.rawKeys(c.Sub("k"), k.Words)
		if c.P("abort", 1, 5) {
			n := c.N("abortat", len(keys))
			rest := keys[n:]
			keys = append([]string{}, keys[:n]...)
			if c.P("stop", 1, 3) { // and then nothing
				cmd.Dec = nil
			} else if keys = append(keys, []string{"\x03", "\x04"}[c.N("abkey", 2)]); c.P("typeon", 1, 2) { // keys still in the queue
				keys = append(keys, rest...)
			}
		}
	}
	cmd.Entry = rn.rawUnits(c, keys)
	rn.do(c, cmd)
}

// scenLines: line-by-line entry on a terminal, a pipe or a word file.
func scenLines(rn *Run, c *Choices) {
	rn.sane(c)
	k := rn.makePhrase(c.Sub("ph"))
	rn.faulty = c.P("faulty", 1, 2)
	rn.focus = map[string]bool{"stdin": true, "tty": true}
	for i := 0; i < 2; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		cmd := &Cmd{Verb: "recover"}
		if s.P("conv", 1, 4) {
			cmd.Verb = "convert"
		}
		rn.machine(s, cmd)
		if k.Pw != "" {
			cmd.Dec = []string{k.Pw}
		}
		text := rn.lineText(s, k.Words)
		if s.P("early", 1, 6) { // ends before the phrase is complete
			text = text[:s.N("cut", len(text))]
		}
		if s.P("trail", 1, 6) {
			text += "\n" + strings.Repeat("trailing garbage\n", s.N("ntrail", 50))
		}
		if s.P("binary", 1, 12) {
			text = string(s.R("bin").Bytes(s.N("nbin", 3000))) + "\n" + text
		}
		if s.P("huge", 1, 40) {
			text = strings.Repeat("a", 66000+s.N("nhuge", 200000)) + "\n" + text
		}
		if s.P("tty", 1, 3) {
			cmd.Simple = true
			if !strings.ContainsAny(text, "\x03\x04\x1c\x15\x7f\r\x08\x00") && len(text) < 3000 {
				cmd.Entry = rn.lineUnits(s, text)
			} else {
				cmd.Entry = rn.lineUnits(s, rn.lineText(s, k.Words))
			}
		} else {
			cmd.Stdin = "pipe"
			cmd.Simple = s.P("simple", 1, 2)
			cmd.Pipe = rn.pipeOf(s, text)
			if len(cmd.Pipe) > 2000 {
				cmd.Pipe = []core.Chunk{{Data: text}}
			}
		}
		rn.do(s, cmd)
	}
}

// scenTwin: one phrase, one option set, different machines, input methods,
// clocks and schedules; the exports must be identical.
func scenTwin(rn *Run, c *Choices) {
	k := rn.makePhrase(c.Sub("ph"))
	base := &Cmd{Verb: "recover"}
	rn.identity(c, base)
	if c.P("idx", 1, 2) {
		rn.indices(c, base)
	}
	base.SelfCert = []string{"", "true", "false"}[c.W("selfcert", 4, 1, 2)]
	for i := 0; i < 3; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		rn.clock(s)
		cmd := *base
		rn.machine(s, &cmd)
		cmd.Verbose = s.P("verbose", 1, 2)
		rn.input(s, &cmd, k.Words, k.Pw != "")
		if k.Pw != "" {
			cmd.Dec = rn.decAttempts(s, k)
		}
		rn.w.Secure = core.NewStream(uint64(s.Int64("rng", func(r *core.PRNG) int64 { return r.Int63() })))
		rn.w.Ambient = core.NewPRNG(uint64(s.Int64("amb", func(r *core.PRNG) int64 { return r.Int63() })))
		rn.faulty = s.P("faulty", 1, 3)
		rn.do(s, &cmd)
	}
}

// scenPasswords: every password dialogue, with mistakes, aborts and no terminal.
func scenPasswords(rn *Run, c *Choices) {
	rn.sane(c)
	rn.faulty = c.P("faulty", 1, 3)
	rn.focus = map[string]bool{"tty": true, "ttyset": false, "kdf": true}
	var cmd *Cmd
	switch c.W("which", 3, 3, 3, 1) {
	case 0:
		cmd = &Cmd{Verb: "generate", EncPhrase: true}
		rn.machine(c, cmd)
		cmd.Only = sp("signing")
	case 1:
		k := rn.makePhrase(c.Sub("ph"))
		cmd = &Cmd{Verb: "convert", EncPhrase: c.P("enc2", 2, 3)}
		rn.machine(c, cmd)
		rn.input(c, cmd, k.Words, true)
		cmd.Dec = rn.decAttempts(c, k)
	case 2:
		k := rn.makePhrase(c.Sub("ph"))
		cmd = &Cmd{Verb: "recover"}
		rn.machine(c, cmd)
		rn.input(c, cmd, k.Words, true)
		cmd.Dec = rn.decAttempts(c, k)
		cmd.Only = sp("authentication")
	case 3: // key encryption (slow)
		cmd = &Cmd{Verb: "generate", EncKeys: true, EncPhrase: c.P("enc2", 1, 3)}
		rn.machine(c, cmd)
		cmd.Only = sp("authentication")
	}
	if cmd.EncPhrase {
		cmd.NewPh = rn.newPassword(c.Sub("np"), rn.password(c, "phpw"))
		rn.edgeSalt(c)
	}
	if cmd.EncKeys {
		cmd.NewKey = rn.newPassword(c.Sub("nk"), rn.password(c, "keypw"))
	}
	if c.P("giveup", 1, 4) { // stop somewhere in the dialogue
		if c.P("atconfirm", 1, 2) { // between the two entries
			if n := len(cmd.NewPh); n > 0 {
				cmd.NewPh[c.N("gupc", n)][1] = giveUp
			}
			if n := len(cmd.NewKey); n > 0 {
				cmd.NewKey[c.N("gupk", n)][1] = giveUp
			}
		} else if n := len(cmd.NewPh); n > 0 {
			cmd.NewPh = cmd.NewPh[:c.N("gup", n)]
		} else if n := len(cmd.NewKey); n > 0 {
			cmd.NewKey = cmd.NewKey[:c.N("gup", n)]
		}
	}
	if c.P("notty", 1, 6) {
		cmd.Stdin = []string{"null", "closed", "pipe"}[c.N("nottykind", 3)]
		if cmd.Stdin == "pipe" && c.P("feed", 2, 3) { // somebody pipes the passwords in
			for _, p := range cmd.Dec {
				cmd.Pipe = append(cmd.Pipe, core.Chunk{Data: p + "\n"})
			}
			for _, p := range append(append([][2]string{}, cmd.NewKey...), cmd.NewPh...) {
				cmd.Pipe = append(cmd.Pipe, core.Chunk{Data: p[0] + "\n" + p[1] + "\n"})
			}
		}
	}
	rn.do(c, cmd)
}

// scenKeyEnc: password-protected exports.
func scenKeyEnc(rn *Run, c *Choices) {
	rn.sane(c)
	k := rn.makePhrase(c.Sub("ph"))
	base := &Cmd{Verb: "recover"}
	rn.identity(c, base)
	if c.P("one", 2, 3) { // fewer secrets are faster
		base.Only = sp([]string{"master", "encryption", "authentication", "signing", "master,encryption"}[c.N("onlyone", 5)])
	} else if c.P("nomaster", 1, 3) {
		base.Only = sp([]string{"encryption,authentication,signing", "signing,encryption", "authentication,signing"}[c.W("onlysubs", 2, 1, 1)])
	}
	if c.P("idx", 1, 3) {
		rn.indices(c, base)
	}
	base.SelfCert = []string{"", "true", "false"}[c.W("selfcert", 4, 1, 2)]
	if c.P("generate", 1, 3) { // a new key, exported encrypted
		cmd := *base
		cmd.Verb, cmd.EncKeys, cmd.SelfCert, cmd.EncI, cmd.AuthI, cmd.SigI = "generate", true, "", nil, nil, nil
		rn.machine(c, &cmd)
		cmd.NewKey = rn.newPassword(c, rn.password(c, "keypw"))
		if c.P("both", 1, 3) {
			cmd.EncPhrase = true
			cmd.NewPh = rn.newPassword(c.Sub("ph2"), rn.password(c, "phpw"))
		}
		rn.faulty = c.P("faulty", 1, 2)
		rn.focus = map[string]bool{"rng": true}
		rn.do(c, &cmd)
		return
	}
	plain := *base
	rn.machine(c.Sub("p"), &plain)
	plain.Verbose = false
	rn.w.FS.Put("/work/in", []byte(strings.Join(k.Words, " ")+"\n"), 0600)
	plain.InFile = sp("/work/in")
	if k.Pw != "" {
		plain.Dec = []string{k.Pw}
	}
	rn.do(c.Sub("plain"), &plain)
	s := c.Sub("enc")
	cmd := *base
	cmd.EncKeys = true
	rn.machine(s, &cmd)
	cmd.InFile = sp("/work/in")
	cmd.Dec = plain.Dec
	cmd.NewKey = rn.newPassword(s, rn.password(s, "keypw"))
	if s.P("giveup", 1, 8) {
		cmd.NewKey = cmd.NewKey[:len(cmd.NewKey)-1]
	}
	rn.faulty = s.P("faulty", 1, 2)
	rn.focus = map[string]bool{"rng": true}
	rn.do(s, &cmd)
}

// scenFiles: destinations that exist, appear, vanish or cannot be written.
func scenFiles(rn *Run, c *Choices) {
	rn.sane(c)
	rn.faulty = c.P("faulty", 3, 4)
	rn.focus = map[string]bool{"fs": true, "fsclose": true, "any": true}
	f := rn.w.FS
	rn.w.FS.Put("/work/other-file", []byte("keep me\n"), 0644)
	rn.w.FS.Put("/work/words", []byte("keep me too\n"), 0600)
	near := c.W("near", 3, 1, 1, 1, 1, 1)
	for i, n := 0, 1+c.N("times", 3); i < n; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		var cmd *Cmd
		if s.P("conv", 1, 2) {
			k := rn.makePhrase(s.Sub("ph"))
			cmd = rn.convertCmd(s, k)
		} else {
			cmd = rn.generateCmd(s)
			cmd.Entropy, cmd.Stdin, cmd.Pipe = nil, "", nil
		}
		rn.files++
		dest := fmt.Sprintf("/work/dest%d", rn.files)
		switch s.W("dest", 6, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1) {
		case 1: // exists
			f.Put(dest, []byte("precious\n"), []fs.FileMode{0644, 0600, 0400, 0}[s.N("mode", 4)])
		case 2:
			f.MkdirAll(dest, 0755)
		case 3: // dangling link
			f.Symlink("/work/other-target", dest)
		case 4: // link to an existing file
			f.Symlink("/work/other-file", dest)
		case 5:
			dest = "/work/missing/dest"
		case 6: // unwritable directory
			f.MkdirAll("/work/ro", 0555)
			dest = "/work/ro/dest"
		case 7: // empty file
			f.Put(dest, nil, 0644)
		case 8:
			dest = "/work/" + strings.Repeat("n", 300)
		case 9: // through a file
			dest = "/work/other-file/x"
		case 10: // saved twice to the same place
			dest = "/work/same"
		}
		if x := []string{"", ".tmp", ".bak", "~", ".new", ".part"}[near]; x != "" && len(dest) < 100 && !strings.Contains(dest, "/missing/") && !strings.Contains(dest, "/other-file/") {
			f.Put(dest+x, []byte("somebody's\n"), 0600)
		}
		cmd.OutFile = sp(dest)
		rn.do(s, cmd)
	}
}

// scenFaults: every command under heavy fault injection.
func scenFaults(rn *Run, c *Choices) {
	rn.sane(c)
	rn.faulty = true
	if c.P("out", 1, 2) {
		rn.focus = map[string]bool{"stdout": true, "stderr": true, "fs": true, "fsclose": true}
	}
	for i := 0; i < 2; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		var cmd *Cmd
		switch s.W("verb", 3, 2, 2) {
		case 0:
			cmd = rn.generateCmd(s)
		case 1:
			cmd = rn.recoverCmd(s, rn.makePhrase(s.Sub("ph")), nil)
		case 2:
			cmd = rn.convertCmd(s, rn.makePhrase(s.Sub("ph")))
		}
		if s.P("noout", 1, 25) {
			cmd.NoStdout = true
		}
		rn.do(s, cmd)
		rn.bump(s)
	}
}

// scenRng: the randomness source fails, or a user-chosen source is odd.
func scenRng(rn *Run, c *Choices) {
	rn.sane(c)
	rn.faulty = c.P("faulty", 1, 2)
	rn.focus = map[string]bool{"rng": true, "stdin": true, "fs": true}
	var cmd *Cmd
	if c.P("conv", 1, 3) {
		k := rn.makePhrase(c.Sub("ph"))
		cmd = rn.convertCmd(c, k)
		if !cmd.EncPhrase {
			cmd.EncPhrase = true
			cmd.NewPh = rn.newPassword(c.Sub("np"), rn.password(c, "phpw2"))
		}
	} else {
		cmd = rn.generateCmd(c)
		if cmd.Entropy == nil && c.P("ent", 1, 2) {
			rn.entropy(c.Sub("ent2"), cmd)
		}
	}
	rn.do(c, cmd)
}

// scenTimes: generation at every sort of clock reading.
func scenTimes(rn *Run, c *Choices) {
	rn.clock(c)
	rn.faulty = c.P("faulty", 1, 4)
	rn.focus = map[string]bool{"clock": true}
	g := c.Sub("gen")
	gen := rn.generateCmd(g)
	d := rn.do(g, gen)
	if !succeeded(d) || len(d.Phrase) == 0 || !d.Want.OK {
		return
	}
	k := &Kept{Words: d.Phrase, Seed: d.Seed, Off: d.Offset}
	if gen.EncPhrase {
		k.Pw = d.Want.PhPw
	}
	rn.clock(c.Sub("after"))
	rn.finals(c.Sub("final"), []*Kept{k}, gen)
}

// scenTTL: time-to-live values of every sort.
func scenTTL(rn *Run, c *Choices) {
	rn.faulty = false
	k := rn.makePhrase(c.Sub("ph"))
	for i := 0; i < 3; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		cmd := &Cmd{}
		if s.P("gen", 1, 3) {
			rn.clock(s)
			cmd.Verb = "generate"
			rn.machine(s, cmd)
		} else {
			cmd.Verb = "recover"
			rn.machine(s, cmd)
			rn.w.FS.Put("/work/in", []byte(strings.Join(k.Words, " ")+"\n"), 0600)
			cmd.InFile = sp("/work/in")
			if k.Pw != "" {
				cmd.Dec = []string{k.Pw}
			}
		}
		cmd.TTL = sp(rn.ttl(s))
		if s.P("empty", 1, 20) {
			cmd.TTL = sp("")
		}
		cmd.Verbose = s.P("verbose", 1, 2)
		if s.P("only", 1, 3) {
			cmd.Only = sp(rn.only(s))
		}
		rn.do(s, cmd)
	}
}

// scenUsage: arbitrary argument lists and terminal shapes.
func scenUsage(rn *Run, c *Choices) {
	rn.sane(c)
	r := c.R("args")
	vals := []string{"help", "--help", "-h", "-help", "generate", "recover", "convert", "", "-", "--", "x", "-name", "-ttl", "-ttl=", "-ttl=bogus", "-only=bogus", "-enc-index=70000", "-sig-index", "-auth-index=-1", "-verbose", "-verbose=maybe", "-simple", "-in-word-file", "-in-word-file=/none", "-out-word-file=/work", "-unsafe-entropy=/none", "-unsafe-entropy", "-nonexistent", "-encrypt-keys=2", "---", "-=", "=", "\xff\xfe", strings.Repeat("z", 3000)}
	cmd := &Cmd{Verb: "raw", RawArgs: []string{}}
	rn.machine(c, cmd)
	switch c.W("first", 4, 3, 3, 3, 2) {
	case 1:
		cmd.RawArgs = append(cmd.RawArgs, "generate")
	case 2:
		cmd.RawArgs = append(cmd.RawArgs, "recover")
	case 3:
		cmd.RawArgs = append(cmd.RawArgs, "convert")
	case 4:
		cmd.RawArgs = append(cmd.RawArgs, "help")
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		cmd.RawArgs = append(cmd.RawArgs, vals[r.Intn(len(vals))])
	}
	switch c.W("term", 2, 6, 1) {
	case 1:
		cmd.Cols = uint16(r.Intn(40))
		cmd.Rows = uint16(r.Intn(10))
		cmd.SizeErr = false
	case 2:
		cmd.Cols, cmd.SizeErr = 65535, false
	}
	cmd.Stdin = []string{"tty", "null", "pipe", "closed"}[c.W("stdin", 5, 1, 1, 1)]
	if cmd.Stdin == "pipe" {
		cmd.Pipe = []core.Chunk{{Data: string(r.Bytes(r.Intn(2000)))}}
	}
	rn.faulty = c.P("faulty", 1, 4)
	rn.do(c, cmd)
}

// scenSalts: the same phrase encrypted repeatedly gets fresh salts.
func scenSalts(rn *Run, c *Choices) {
	rn.sane(c)
	k := rn.makePhrase(c.Sub("ph"))
	seen := map[string]int{}
	salts := map[uint32]int{}
	n := 0
	var or, and uint32 = 0, 1<<19 - 1
	pw := rn.password(c, "pw")
	rn.w.FS.Put("/work/in", []byte(strings.Join(k.Words, " ")+"\n"), 0600)
	N := 40
	for i := 0; i < N; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		cmd := &Cmd{Verb: "convert", EncPhrase: true, InFile: sp("/work/in"), NewPh: [][2]string{{pw, pw}}}
		cmd.Rows, cmd.Cols = 24, 80
		if k.Pw != "" {
			cmd.Dec = []string{k.Pw}
		}
		d := rn.do(s, cmd)
		if !succeeded(d) || len(d.Phrase) == 0 {
			continue
		}
		ph, err := ref.Decode(d.Phrase)
		if err != nil || !ph.Enc {
			continue
		}
		n++
		seen[strings.Join(d.Phrase, " ")]++
		salts[ph.Salt]++
		or |= ph.Salt
		and &= ph.Salt
	}
	rn.relevant("C06")
	if n == N {
		// with 40 draws of 19 random bits: a repeat has probability < 1/1900 per
		// pair class only if bits are missing; require no more than two repeats
		rep := N - len(salts)
		if rep > 2 {
			rn.bad("C06", "salt reused", "%d of %d encryptions of one phrase repeat an earlier salt", rep, N)
		}
		if or != 1<<19-1 || and != 0 {
			// a given bit is constant over 40 draws with probability 2^-39
			rn.bad("C06", "salt bits unused", "salt bits that never vary over %d encryptions: or=%05x and=%05x", N, or, and)
		}
	}
}

// scenFresh: repeated generation gives unrelated seeds covering every bit.
func scenFresh(rn *Run, c *Choices) {
	rn.sane(c)
	var or, and [16]byte
	for i := range and {
		and[i] = 0xff
	}
	seen := map[[16]byte]bool{}
	N := 40
	n := 0
	for i := 0; i < N; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		cmd := &Cmd{Verb: "generate", Only: sp("signing"), Rows: 24, Cols: 80}
		d := rn.do(s, cmd)
		if !succeeded(d) || len(d.Phrase) == 0 {
			continue
		}
		n++
		if seen[d.Seed] {
			rn.bad("C21", "seed repeated", "two generations gave the same seed %x", d.Seed)
		}
		seen[d.Seed] = true
		for j := range or {
			or[j] |= d.Seed[j]
			and[j] &= d.Seed[j]
		}
	}
	rn.relevant("C21")
	if n == N {
		for j := range or {
			if or[j] != 0xff || and[j] != 0 {
				rn.bad("C21", "seed bits unused", "seed bits that never vary over %d generations: or=%x and=%x", N, or, and)
				break
			}
		}
	}
}

// scenReal: a few runs with the real password hash.
func scenReal(rn *Run, c *Choices) {
	rn.sane(c)
	rn.w.RealKDF = true
	k := rn.makePhrase(c.Sub("ph"))
	cmd := &Cmd{Verb: "recover", Rows: 24, Cols: 80, InFile: sp("/work/in")}
	rn.w.FS.Put("/work/in", []byte(strings.Join(k.Words, " ")+"\n"), 0600)
	if k.Pw != "" {
		cmd.Dec = []string{k.Pw}
	}
	rn.do(c, cmd)
}

func init() {
	register("life", scenLife)
	register("chain", scenChain)
	register("corrupt", scenCorrupt)
	register("entry", scenEntry)
	register("lines", scenLines)
	register("twin", scenTwin)
	register("passwords", scenPasswords)
	register("keyenc", scenKeyEnc)
	register("files", scenFiles)
	register("faults", scenFaults)
	register("rng", scenRng)
	register("times", scenTimes)
	register("ttl", scenTTL)
	register("usage", scenUsage)
	register("salts", scenSalts)
	register("fresh", scenFresh)
	register("real", scenReal)
}
