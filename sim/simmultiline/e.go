// Package simmultiline: the line editor of the interactive prompt, whose user
// is simulated. Everything that only concerns the terminal is the real package.
package simmultiline

import (
	"context"
	"io"

	real_ "github.com/hymkor/go-multiline-ny"
	"github.com/nyaosorg/go-readline-ny"
)

// User is the simulated user: what Read returns.
var User func(e *Editor) ([]string, error)

type Editor struct {
	real_.Editor
	when   func([]string, int) bool
	prompt func(io.Writer, int) (int, error)
}

func (e *Editor) SubmitOnEnterWhen(f func([]string, int) bool)      { e.when = f }
func (e *Editor) SetPrompt(f func(w io.Writer, i int) (int, error)) { e.prompt = f }
func (e *Editor) SetWriter(io.Writer)                               {}

func (e *Editor) Read(context.Context) ([]string, error) {
	if User == nil {
		return nil, io.EOF
	}
	if e.prompt != nil {
		_, _ = e.prompt(io.Discard, 0)
	}
	return User(e)
}

// Enter reports whether the Enter key submits the lines with the cursor at the end.
func (e *Editor) Enter(lines []string) bool {
	if e.prompt != nil {
		_, _ = e.prompt(io.Discard, len(lines)-1)
	}
	return e.when != nil && e.when(append([]string{}, lines...), len(lines)-1)
}

// Past is the history, oldest first.
func (e *Editor) Past() []string {
	var r []string
	if h := e.LineEditor.History; h != nil {
		for i := 0; i < h.Len(); i++ {
			r = append(r, h.At(i))
		}
	}
	return r
}

// Interrupt is what Read returns when the user interrupts.
var Interrupt = readline.CtrlC
