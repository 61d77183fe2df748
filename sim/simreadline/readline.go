// Package readline stands in for the interactive line reader: the lines come
// from the simulated user.
package readline

import (
	"errors"
	"io"
)

type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	InterruptPrompt        string
	EOFPrompt              string
	AutoComplete           any
	Stdin                  io.Reader
	Stdout                 io.Writer
	Stderr                 io.Writer
	VimMode                bool
	Undo                   bool
}

var (
	ErrInterrupt = errors.New("Interrupt")
	ErrEOF       = io.EOF
)

// User is who types.
var User struct {
	Next   func() (string, error)
	Prompt func(string)
	Fail   error
	Open   int
	Closed int
}

type Instance struct{ prompt string }

func NewEx(c *Config) (*Instance, error) {
	if User.Fail != nil {
		return nil, User.Fail
	}
	User.Open++
	return &Instance{c.Prompt}, nil
}
func NewFromConfig(c *Config) (*Instance, error) { return NewEx(c) }
func New(p string) (*Instance, error)            { return NewEx(&Config{Prompt: p}) }
func (i *Instance) Readline() (string, error) {
	if User.Prompt != nil {
		User.Prompt(i.prompt)
	}
	return User.Next()
}
func (i *Instance) ReadLine() (string, error) { return i.Readline() }
func (i *Instance) ReadSlice() ([]byte, error) {
	s, err := i.Readline()
	return []byte(s), err
}
func (i *Instance) SetPrompt(p string)          { i.prompt = p }
func (i *Instance) ResetHistory()               {}
func (i *Instance) SaveHistory(string) error    { return nil }
func (i *Instance) SaveToHistory(string) error  { return nil }
func (i *Instance) DisableHistory()             {}
func (i *Instance) EnableHistory()              {}
func (i *Instance) Refresh()                    {}
func (i *Instance) Clean()                      {}
func (i *Instance) CaptureExitSignal()          {}
func (i *Instance) Write(b []byte) (int, error) { return len(b), nil }
func (i *Instance) Close() error                { User.Closed++; return nil }
