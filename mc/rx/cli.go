package rx

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"time"

	"verif/mc/hx"
)

// Result is what a run of the gotetra program did.
type Result struct {
	Code     int // exit status; -1 when a signal ended it
	Out, Err string
	Hung     bool
}

func (r Result) String() string {
	e := r.Err
	if len(e) > 300 {
		e = e[:100] + " ... " + e[len(e)-200:]
	}
	return fmt.Sprintf("exit %d: %s", r.Code, e)
}

// CLI runs the gotetra program, built from the working tree, in dir.
func CLI(dir string, args ...string) Result { return CLILimit(dir, -1, args...) }

// CLILimit runs the program with no file allowed to grow past fsize bytes.
func CLILimit(dir string, fsize int64, args ...string) Result {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		panic(hx.HarnessError{Msg: "VERIF_CLI is not set"})
	}
	ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	name, a := bin, args
	if fsize >= 0 {
		name, a = "prlimit", append([]string{fmt.Sprintf("--fsize=%d:%d", fsize, fsize), bin}, args...)
	}
	cmd := exec.CommandContext(ctx, name, a...)
	cmd.Dir = dir
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = out, errs
	err := cmd.Run()
	r := Result{Out: out.String(), Err: errs.String(), Hung: ctx.Err() != nil}
	if e, ok := err.(*exec.ExitError); ok {
		r.Code = e.ExitCode()
	} else if err != nil {
		panic(hx.HarnessError{Msg: err.Error()})
	}
	return r
}
