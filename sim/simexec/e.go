// Package simexec simulates child processes: a table of programs, run
// synchronously against the simulated clock.
package simexec

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	os "github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Op is one action of a simulated child process.
type Op struct {
	Kind string `json:"k"` // out err args sleep read exit signal hook orphan
	Text string `json:"t,omitempty"`
	N    int    `json:"n,omitempty"` // milliseconds, bytes, status
}

type Prog struct {
	StartErr string `json:"start,omitempty"` // non-empty: the program cannot be started
	Ops      []Op   `json:"ops,omitempty"`
	Chunk    int    `json:"chunk,omitempty"`  // its output arrives in pieces of this size
	NoPipe   bool   `json:"nopipe,omitempty"` // it goes on when its output is not taken any more
	NoInt    bool   `json:"noint,omitempty"`  // it ignores interrupts
}

// Started is the record of a process.
type Started struct {
	Name   string
	Args   []string
	At     int64 // time of start and end
	End    int64
	Killed bool
	Signal string
	Exit   int
	Stdin  string
	Done   bool
}

var (
	Programs = map[string]Prog{}
	Log      []*Started
	Hook     func(n int) // called by "hook" actions
)

func Reset(p map[string]Prog) { Programs, Log, Hook = p, nil, nil }

var (
	ErrNotFound  = errors.New("executable file not found in $PATH")
	ErrDot       = errors.New("cannot run executable found relative to current directory")
	ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")
)

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return fmt.Sprintf("exec: %q: %s", e.Name, e.Err) }
func (e *Error) Unwrap() error { return e.Err }

// ProcessState is what is known about an ended process.
type ProcessState struct{ st *Started }

func (p *ProcessState) Exited() bool  { return p != nil && p.st.Signal == "" }
func (p *ProcessState) Success() bool { return p != nil && p.st.Signal == "" && p.st.Exit == 0 }
func (p *ProcessState) Pid() int      { return 1 }
func (p *ProcessState) ExitCode() int {
	if p == nil || p.st.Signal != "" {
		return -1
	}
	return p.st.Exit
}
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.st.Signal != "" {
		return "signal: " + p.st.Signal
	}
	return fmt.Sprintf("exit status %d", p.st.Exit)
}

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Process is a running process.
type Process struct {
	Pid int
	c   *Cmd
}

func (p *Process) Kill() error { return p.Signal(os.Kill) }
func (p *Process) Signal(s os.Signal) error {
	st := p.c.run
	switch {
	case st.Done:
		return os.ErrProcessDone
	case s == os.Kill:
		st.Signal, st.Killed = "killed", true
	case !Programs[p.c.Path].NoInt && st.Signal == "":
		st.Signal = s.String()
	}
	return nil
}
func (p *Process) Release() error { return nil }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	ctx          context.Context
	run          *Started
	live         bool
	cancelled    bool
	cancelErr    error
	cancelAt     int64
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if _, err := LookPath(name); err != nil {
		c.Err = err
	}
	return c
}
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}
func LookPath(name string) (string, error) {
	if _, ok := Programs[name]; ok {
		return name, nil
	}
	return "", &Error{name, ErrNotFound}
}

func (c *Cmd) String() string    { return c.Path }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b buf
	c.Stdout = &b
	err := c.Run()
	return b.b, err
}
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b buf
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.b, err
}

type buf struct{ b []byte }

func (b *buf) Write(p []byte) (int, error) { b.b = append(b.b, p...); return len(p), nil }

func (c *Cmd) ctxDone() bool {
	if c.ctx == nil {
		return false
	}
	select {
	case <-c.ctx.Done():
		return true
	default:
		return false
	}
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.run != nil {
		return errors.New("exec: already started")
	}
	if c.ctxDone() {
		return c.ctx.Err()
	}
	p := Programs[c.Path]
	if p.StartErr != "" {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: errors.New(p.StartErr)}
	}
	c.run = &Started{Name: c.Path, Args: append([]string{}, c.Args[1:]...), At: simrt.Mono()}
	c.Process = &Process{Pid: 1000 + len(Log), c: c}
	Log = append(Log, c.run)
	c.live = true
	return nil
}

// poll lets a context that has ended act; it tells whether the child is gone.
func (c *Cmd) poll() bool {
	if !c.cancelled && c.ctxDone() {
		c.cancelled, c.cancelAt = true, simrt.Mono()
		if c.Cancel != nil {
			if err := c.Cancel(); err == nil {
				c.cancelErr = c.ctx.Err()
			} else if !errors.Is(err, os.ErrProcessDone) {
				c.cancelErr = err
			}
		}
	}
	if c.cancelled && c.WaitDelay > 0 && simrt.Mono() >= c.cancelAt+int64(c.WaitDelay) {
		c.Process.Kill()
	}
	return c.run.Signal != ""
}

func same(a, b io.Writer) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

// Wait runs the child to completion. Like the real package it acts when the
// context ends, stops copying output after a failure, in which case the child
// gets SIGPIPE, and waits for all holders of the output.
func (c *Cmd) Wait() error {
	if c.run == nil {
		return errors.New("exec: not started")
	}
	if !c.live {
		return errors.New("exec: Wait was already called")
	}
	c.live = false
	st := c.run
	p := Programs[c.Path]
	var errs [2]error
	errE := &errs[1]
	if same(c.Stdout, c.Stderr) {
		errE = &errs[0]
	}
	write := func(w io.Writer, e *error, s string) {
		if w == nil {
			return
		}
		for s != "" && !c.poll() {
			k := len(s)
			if p.Chunk > 0 && p.Chunk < k {
				k = p.Chunk
			}
			if *e != nil {
				if !p.NoPipe {
					st.Signal = "broken pipe"
				}
				return
			}
			n, err := w.Write([]byte(s[:k]))
			if err == nil && n < k {
				err = io.ErrShortWrite
			}
			*e = err
			s = s[k:]
		}
	}
	hold := int64(0)
ops:
	for _, op := range p.Ops {
		if c.poll() {
			break
		}
		switch op.Kind {
		case "out":
			write(c.Stdout, &errs[0], op.Text)
		case "err":
			write(c.Stderr, errE, op.Text)
		case "args":
			t := ""
			for _, a := range st.Args {
				t += "[" + a + "]"
			}
			write(c.Stdout, &errs[0], t)
		case "sleep":
			ns := int64(op.N) * 1e6
			for step := ns/200 + 1000; ns > 0 && !c.poll(); ns -= step {
				simrt.Sleep(step)
			}
		case "read":
			if c.Stdin != nil {
				b := make([]byte, op.N)
				n, _ := io.ReadFull(c.Stdin, b)
				st.Stdin += string(b[:n])
			}
		case "hook":
			if Hook != nil {
				Hook(op.N)
			}
		case "orphan":
			hold = int64(op.N) * 1e6
		case "signal":
			st.Signal = op.Text
		case "exit":
			st.Exit = op.N
			break ops
		}
	}
	c.poll()
	st.Done, st.End = true, simrt.Mono()
	c.ProcessState = &ProcessState{st}
	var err error
	if !c.ProcessState.Success() {
		err = &ExitError{ProcessState: c.ProcessState}
	}
	if err == nil {
		err = c.cancelErr
	}
	if hold > 0 && (c.Stdout != nil || c.Stderr != nil) {
		if d := int64(c.WaitDelay); d > 0 && d < hold {
			simrt.Sleep(d)
			if err == nil {
				err = ErrWaitDelay
			}
		} else {
			simrt.Sleep(hold)
		}
	}
	for _, e := range errs {
		if err == nil {
			err = e
		}
	}
	return err
}
