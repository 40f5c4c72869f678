package core

import (
	"fmt"
	"syscall"
)

// Termios holds the terminal attributes the code under test can see.
type Termios struct {
	Iflag, Oflag, Cflag, Lflag uint32
	Line                       uint8
	Cc                         [19]uint8
	Ispeed, Ospeed             uint32
}

// Linux termios bits used by the model.
const (
	IGNBRK = 0x1
	BRKINT = 0x2
	PARMRK = 0x8
	ISTRIP = 0x20
	INLCR  = 0x40
	IGNCR  = 0x80
	ICRNL  = 0x100
	IXON   = 0x400
	OPOST  = 0x1
	CSIZE  = 0x30
	PARENB = 0x100
	CS8    = 0x30
	ISIG   = 0x1
	ICANON = 0x2
	ECHO   = 0x8
	ECHOE  = 0x10
	ECHOK  = 0x20
	ECHONL = 0x40
	NOFLSH = 0x80
	IEXTEN = 0x8000
	VINTR  = 0
	VQUIT  = 1
	VERASE = 2
	VKILL  = 3
	VEOF   = 4
	VTIME  = 5
	VMIN   = 6
)

// Sane is the initial state of a terminal.
func Sane() Termios {
	t := Termios{Iflag: ICRNL | IXON | BRKINT, Oflag: OPOST | 4, Cflag: CS8 | 0x80, Lflag: ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN, Ispeed: 15, Ospeed: 15}
	t.Cc[VINTR] = 3
	t.Cc[VQUIT] = 0x1c
	t.Cc[VERASE] = 0x7f
	t.Cc[VKILL] = 0x15
	t.Cc[VEOF] = 4
	t.Cc[VMIN] = 1
	return t
}

// Unit is one burst of user input, delivered when the program is idle waiting
// for the terminal.
type Unit struct {
	Data  string `json:"d"`
	Tag   string `json:"tag,omitempty"` // "pw": password bytes
	Delay int64  `json:"t,omitempty"`
}

// Echoed records input bytes that were delivered and whether they were shown.
type Echoed struct {
	Tag  string
	Data string
	Echo bool
	Raw  bool
	Err  int // length of standard error when it was delivered
}

// TTY is the simulated terminal and its line discipline.
type TTY struct {
	T          Termios
	Initial    Termios
	Rows, Cols uint16
	Script     []Unit
	// User, if set, decides what the user types next, given what the program
	// wrote to standard error since the last input was delivered.
	User      func(since []byte) (Unit, bool)
	zeros     int // reads after the hangup
	told      int // of standard error, how much User has been shown
	Delivered []Echoed
	Screen    []byte
	Render    []byte // Screen as the line discipline passes it to the display
	Hangup    bool
	SizeErr   error

	line  []byte
	avail []byte
	eofs  int
}

func NewTTY(rows, cols uint16) *TTY {
	t := &TTY{T: Sane(), Rows: rows, Cols: cols}
	t.Initial = t.T
	return t
}

// deliverNext hands the next unit of user input to the line discipline.
func (t *TTY) deliverNext(p *Proc) bool {
	var u Unit
	errLen := 0
	if f := p.Fds[2]; f != nil {
		errLen = len(f.Buf)
	}
	if t.User != nil {
		var ok bool
		// the user knows the dialogue: a prompt lost on its way to the screen
		// is answered all the same
		var since []byte
		if f := p.Fds[2]; f != nil {
			since = f.Tried[min(t.told, len(f.Tried)):]
			t.told = len(f.Tried)
		}
		if u, ok = t.User(since); !ok {
			return false
		}
	} else {
		if len(t.Script) == 0 {
			return false
		}
		u = t.Script[0]
		t.Script = t.Script[1:]
	}
	if u.Delay > 0 {
		p.W.Mono += u.Delay
		p.W.dueTimers()
	}
	p.W.Trace("type", fmt.Sprintf("%q", u.Data))
	t.Delivered = append(t.Delivered, Echoed{u.Tag, u.Data, t.T.Lflag&ECHO != 0, t.T.Lflag&ICANON == 0, errLen})
	if u.Tag == "hangup" {
		t.Hang(p)
		return true
	}
	for i := 0; i < len(u.Data); i++ {
		t.input(p, u.Data[i])
		if p.dead {
			return true
		}
	}
	return true
}

// show puts output on the display.
func (t *TTY) show(b ...byte) {
	t.Screen = append(t.Screen, b...)
	for _, c := range b {
		if c == '\n' && t.T.Oflag&OPOST != 0 {
			t.Render = append(t.Render, '\r')
		}
		t.Render = append(t.Render, c)
	}
}

func (t *TTY) echo(c byte) {
	if t.T.Lflag&ECHO == 0 {
		if c == '\n' && t.T.Lflag&ECHONL != 0 {
			t.show('\n')
		}
		return
	}
	if c < 0x20 && c != '\n' && c != '\t' {
		t.show('^', c+0x40)
		return
	}
	t.show(c)
}

// unecho takes the echo of a line's last byte back.
func (t *TTY) unecho() {
	n := len(t.line)
	if n == 0 {
		return
	}
	c := t.line[n-1]
	t.line = t.line[:n-1]
	if t.T.Lflag&ECHO == 0 {
		return
	}
	t.Render = append(t.Render, "\b \b"...)
	if c < 0x20 && c != '\t' {
		t.Render = append(t.Render, "\b \b"...)
	}
}

func (t *TTY) input(p *Proc, c byte) {
	if t.T.Iflag&ISTRIP != 0 {
		c &= 0x7f
	}
	if c == '\r' {
		if t.T.Iflag&IGNCR != 0 {
			return
		}
		if t.T.Iflag&ICRNL != 0 {
			c = '\n'
		}
	} else if c == '\n' && t.T.Iflag&INLCR != 0 {
		c = '\r'
	}
	if t.T.Lflag&ISIG != 0 {
		var sig syscall.Signal
		switch c {
		case t.T.Cc[VINTR]:
			sig = syscall.SIGINT
		case t.T.Cc[VQUIT]:
			sig = syscall.SIGQUIT
		}
		if sig != 0 {
			t.echo(c)
			if t.T.Lflag&NOFLSH == 0 {
				t.line, t.avail = nil, nil
			}
			p.Signal(sig)
			return
		}
	}
	if t.T.Lflag&ICANON == 0 {
		t.echo(c)
		t.avail = append(t.avail, c)
		return
	}
	switch c {
	case t.T.Cc[VERASE]:
		t.unecho()
		return
	case t.T.Cc[VKILL]:
		for len(t.line) > 0 {
			t.unecho()
		}
		return
	case t.T.Cc[VEOF]:
		if len(t.line) == 0 {
			t.eofs++
		} else {
			t.avail = append(t.avail, t.line...)
			t.line = nil
		}
		return
	case '\n':
		t.echo('\n')
		t.avail = append(t.avail, append(t.line, '\n')...)
		t.line = nil
		return
	}
	t.echo(c)
	t.line = append(t.line, c)
}

// Hang disconnects the terminal: reads end and the process gets SIGHUP.
func (t *TTY) Hang(p *Proc) {
	t.Hangup = true
	p.Signal(syscall.SIGHUP)
}

func (t *TTY) readable() bool { return len(t.avail) > 0 || t.eofs > 0 || t.Hangup }

func (t *TTY) read(p *Proc, b []byte) (int, error) {
	waited := !t.readable()
	Block(t.readable, true)
	if p.dead {
		exitDead()
	}
	if len(t.avail) > 0 {
		max := len(b)
		if t.T.Lflag&ICANON != 0 { // at most one line per read
			for i, c := range t.avail {
				if c == '\n' {
					if i+1 < max {
						max = i + 1
					}
					break
				}
			}
		}
		n := copy(b[:max], t.avail)
		t.avail = t.avail[n:]
		return n, nil
	}
	if t.Hangup {
		if waited { // the other side of the pseudo-terminal is gone
			return 0, syscall.EIO
		}
		if t.zeros++; t.zeros > 3000 {
			p.Out.Hung, p.Out.Spin = true, "other"
			switch {
			case t.T.Lflag&ICANON == 0:
				p.Out.Spin = "word entry"
			case t.T.Lflag&ECHO == 0:
				p.Out.Spin = "password"
			}
			p.end(-1)
			exitDead()
		}
		return 0, nil
	}
	t.eofs--
	return 0, nil
}

func (p *Proc) ttyOf(fd int) (*TTY, error) {
	f := p.FileByFd(fd)
	if f == nil || f.closed || f.kind == kClosed {
		return nil, syscall.EBADF
	}
	if !f.IsTTY() || p.W.TTY == nil {
		return nil, syscall.ENOTTY
	}
	if p.W.TTY.Hangup {
		return nil, syscall.EIO
	}
	return p.W.TTY, nil
}

func (p *Proc) ttyEnter(op string) error {
	f := Enter("tty", op)
	if p.dead {
		exitDead()
	}
	if f != nil && f.Kind == "errno" {
		p.Hit(f)
		return ErrnoOf(f)
	}
	if f != nil && f.Kind == "eof" {
		p.Hit(f)
		if p.W.TTY != nil {
			p.W.TTY.Hang(p)
			if p.dead {
				exitDead()
			}
		}
		return syscall.EIO
	}
	return nil
}

// GetTermios, SetTermios, WinSize and ReadFd back the fake ioctl layer.
func GetTermios(fd int) (Termios, error) {
	if Dead() {
		return Termios{}, syscall.EBADF
	}
	p := cur.proc
	if err := p.ttyEnter("tcgets"); err != nil {
		return Termios{}, err
	}
	t, err := p.ttyOf(fd)
	if err != nil {
		return Termios{}, err
	}
	return t.T, nil
}

func SetTermios(fd int, v Termios) error {
	if Dead() {
		return syscall.EBADF
	}
	p := cur.proc
	// Setting attributes is not failed by errno faults unless asked for
	// explicitly (category ttyset): a terminal that refuses to be restored
	// cannot be left restored by anyone.
	f := Enter("ttyset", "tcsets")
	if p.dead {
		exitDead()
	}
	if f != nil && f.Kind == "errno" {
		p.Hit(f)
		return ErrnoOf(f)
	}
	t, err := p.ttyOf(fd)
	if err != nil {
		return err
	}
	if v.Lflag&ICANON == 0 && t.T.Lflag&ICANON != 0 {
		t.avail = append(t.avail, t.line...)
		t.line = nil
	}
	t.T = v
	p.W.Trace("termios", fmt.Sprintf("l=%x i=%x", v.Lflag, v.Iflag))
	return nil
}

func WinSize(fd int) (rows, cols uint16, err error) {
	if Dead() {
		return 0, 0, syscall.EBADF
	}
	p := cur.proc
	if err := p.ttyEnter("winsize"); err != nil {
		return 0, 0, err
	}
	t, err := p.ttyOf(fd)
	if err != nil {
		return 0, 0, err
	}
	if t.SizeErr != nil {
		return 0, 0, t.SizeErr
	}
	return t.Rows, t.Cols, nil
}

// ReadFd is the bare read system call on a descriptor.
func ReadFd(fd int, b []byte) (int, error) {
	if Dead() {
		exitDead()
	}
	f := cur.proc.FileByFd(fd)
	if f == nil || f.closed {
		return 0, syscall.EBADF
	}
	return f.sysRead(b)
}

// WriteFd is the bare write system call.
func WriteFd(fd int, b []byte) (int, error) {
	if Dead() {
		exitDead()
	}
	f := cur.proc.FileByFd(fd)
	if f == nil || f.closed {
		return 0, syscall.EBADF
	}
	return f.sysWrite(b)
}
