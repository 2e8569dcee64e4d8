// Package vt has pseudo terminals, and reads what programs write to them.
package vt

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"

	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

func ioctl(fd uintptr, req, arg uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		hlib.Fail("ioctl", req, e)
	}
}

// Open makes a pseudo terminal of the given size.
func Open(cols, rows int) (master, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		hlib.Fail(err)
	}
	var n uint32
	var unlock int32
	ioctl(master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock)))
	ioctl(master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	SetSize(master, cols, rows)
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		hlib.Fail(err)
	}
	return master, slave
}

// SetSize changes the size of a terminal; whoever runs on it is told.
func SetSize(f *os.File, cols, rows int) {
	sz := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	ioctl(f.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&sz)))
}

// Modes are the settings of a terminal, to compare.
func Modes(f *os.File) string {
	var t syscall.Termios
	ioctl(f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return fmt.Sprint(t.Iflag, t.Oflag, t.Cflag, t.Lflag)
}
