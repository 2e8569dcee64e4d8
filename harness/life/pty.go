package main

import (
	"fmt"
	"os"
	"os/exec"
	"syscall"

	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
	"sigs.k8s.io/instrumentation-tools/zzverif/vt"
)

// withTerminal runs this program again with a terminal of its own: the prompt
// library wants to open /dev/tty, although it is not used.
func withTerminal() {
	if os.Getenv("VERIF_TTY") != "" {
		return
	}
	master, slave := vt.Open(80, 24)
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Args[0] = os.Args[0]
	cmd.Env = append(os.Environ(), "VERIF_TTY=1")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	_ = master
	if x, ok := err.(*exec.ExitError); ok {
		if x.ExitCode() < 0 {
			fmt.Fprintln(os.Stderr, "signal: killed", x)
			os.Exit(2)
		}
		os.Exit(x.ExitCode())
	}
	if err != nil {
		hlib.Fail(err)
	}
	os.Exit(0)
}
