// Package unix is the part of golang.org/x/sys/unix that x/term uses, backed
// by the simulated terminal.
package unix

import (
	"syscall"
	"zsim/core"
)

type Termios = core.Termios
type Errno = syscall.Errno
type Signal = syscall.Signal

type Winsize struct{ Row, Col, Xpixel, Ypixel uint16 }

const (
	TCGETS     = 0x5401
	TCSETS     = 0x5402
	TCSETSW    = 0x5403
	TCSETSF    = 0x5404
	TIOCGWINSZ = 0x5413
	IGNBRK     = core.IGNBRK
	BRKINT     = core.BRKINT
	PARMRK     = core.PARMRK
	ISTRIP     = core.ISTRIP
	INLCR      = core.INLCR
	IGNCR      = core.IGNCR
	ICRNL      = core.ICRNL
	IXON       = core.IXON
	OPOST      = core.OPOST
	CSIZE      = core.CSIZE
	PARENB     = core.PARENB
	CS8        = core.CS8
	ISIG       = core.ISIG
	ICANON     = core.ICANON
	ECHO       = core.ECHO
	ECHOE      = core.ECHOE
	ECHOK      = core.ECHOK
	ECHONL     = core.ECHONL
	NOFLSH     = core.NOFLSH
	IEXTEN     = core.IEXTEN
	VINTR      = core.VINTR
	VQUIT      = core.VQUIT
	VERASE     = core.VERASE
	VKILL      = core.VKILL
	VEOF       = core.VEOF
	VTIME      = core.VTIME
	VMIN       = core.VMIN

	EAGAIN  = syscall.EAGAIN
	EINTR   = syscall.EINTR
	EIO     = syscall.EIO
	ENOTTY  = syscall.ENOTTY
	SIGINT  = syscall.SIGINT
	SIGTERM = syscall.SIGTERM

	O_RDONLY   = syscall.O_RDONLY
	O_WRONLY   = syscall.O_WRONLY
	O_RDWR     = syscall.O_RDWR
	O_CREAT    = syscall.O_CREAT
	O_EXCL     = syscall.O_EXCL
	O_NOFOLLOW = syscall.O_NOFOLLOW
)

func IoctlGetTermios(fd int, req uint) (*Termios, error) {
	t, err := core.GetTermios(fd)
	if err != nil {
		return nil, err
	}
	return &t, nil
}
func IoctlSetTermios(fd int, req uint, v *Termios) error { return core.SetTermios(fd, *v) }
func IoctlGetWinsize(fd int, req uint) (*Winsize, error) {
	r, c, err := core.WinSize(fd)
	if err != nil {
		return nil, err
	}
	return &Winsize{Row: r, Col: c}, nil
}
func Read(fd int, p []byte) (int, error)  { return core.ReadFd(fd, p) }
func Write(fd int, p []byte) (int, error) { return core.WriteFd(fd, p) }
