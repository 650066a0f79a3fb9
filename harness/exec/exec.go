// Package exec stands for os/exec: programs are started by the harness.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strconv"
)

// Start is called for each program started; ctx is nil if there is none.
var OnStart func(ctx context.Context, c *Cmd) error

// ErrNotFound is the error of a program that does not exist.
var ErrNotFound = errors.New("executable file not found in $PATH")

// ExitError is the error of a program that ends with another status than 0.
type ExitError struct {
	Code   int
	Stderr []byte
}

func (e *ExitError) Error() string { return "exit status " + strconv.Itoa(e.Code) }

func (e *ExitError) ExitCode() int { return e.Code }

// Cmd is a program with arguments.
type Cmd struct {
	Path           string
	Args, Env      []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	Cancel         func() error
	Err            error

	ctx  context.Context
	done bool
	res  error
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func LookPath(file string) (string, error) { return file, nil }

func (c *Cmd) Start() error {
	if c.done {
		return errors.New("exec: already started")
	}
	c.done = true
	if c.Err != nil {
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	if c.Stdout == nil {
		c.Stdout = io.Discard
	}
	if c.Stderr == nil {
		c.Stderr = io.Discard
	}
	c.res = OnStart(c.ctx, c)
	if errors.Is(c.res, ErrNotFound) {
		return c.res
	}
	return nil
}

func (c *Cmd) Wait() error {
	if !c.done {
		return errors.New("exec: not started")
	}
	if c.res == nil && c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	return c.res
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) String() string {
	s := c.Path
	for _, a := range c.Args[1:] {
		s += " " + a
	}
	return s
}

func (c *Cmd) Environ() []string { return c.Env }
