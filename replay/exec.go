package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// X runs the code under test for one worker
type X struct {
	bin, drv string
	dir      string
	n        int
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	tz       string
	calls    int
	distinct map[string]bool
	last     string
}

type Fail struct {
	Property string            `json:"property"`
	Msg      string            `json:"violated"`
	Files    map[string]string `json:"files,omitempty"`
	Root     string            `json:"root,omitempty"`
	Args     []string          `json:"command,omitempty"`
	Env      []string          `json:"environment,omitempty"`
	Request  any               `json:"api_calls,omitempty"`
	Expected string            `json:"expected"`
	Actual   string            `json:"actual"`
	Seed     int64             `json:"seed"`
	Case     int               `json:"case"`
	How      string            `json:"how_to_replay"`
}

type Req struct {
	Op        string
	Path      string   `json:",omitempty"`
	S         string   `json:",omitempty"`
	Args      []string `json:",omitempty"`
	StopAfter int      `json:",omitempty"`
	Ops       []Op     `json:",omitempty"`
	Tx        *RTx     `json:",omitempty"`
	Q, Q2     int64    `json:",omitempty"`
	C, C2     string   `json:",omitempty"`
	Flag      bool     `json:",omitempty"`
}
type Op struct {
	Kind string
	Path []string `json:",omitempty"`
	S    string   `json:",omitempty"`
	Q    int64    `json:",omitempty"`
	C    string   `json:",omitempty"`
	Date string   `json:",omitempty"`
	N    int      `json:",omitempty"`
}
type RPosting struct {
	Account   string
	HasAmount bool
	Commodity string
	Quantity  int64
	Comments  []string
	Own       bool
}
type RTx struct {
	Periodic bool
	Path     string
	Date     string
	Clock    string
	State    int
	Payee    string
	Note     string
	Notes    []string
	Postings []RPosting
	Text     string
}
type Node struct {
	Name, Path, Full string
	Components       []string
	Quantity         int64
	Commodity        string
	ParentOK         bool
	KeyOK            bool
	Postings         int
	Children         []*Node
}
type RMonth struct {
	Date   string
	Env    *Node
	Exp    *Node
	Income int64
}
type Resp struct {
	Txs    []RTx
	Err    string
	HasErr bool
	Panic  string
	S      string
	Ss     []string
	B      bool
	Bs     []bool
	Ints   []int
	Q      int64
	C      string
	Tree   *Node
	Trees  []*Node
	Months []RMonth
	Date   string
	Clock  string
	Same   []int
}

var errTimeout = errors.New("no answer within the time limit")

const limit = 10 * time.Second

func (x *X) startDriver() error {
	if x.cmd != nil {
		return nil
	}
	c := exec.Command(x.drv)
	c.Env = append(os.Environ(), "TZ="+x.tz)
	c.Dir = x.dir
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	if err := c.Start(); err != nil {
		return err
	}
	x.cmd, x.in, x.out = c, in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (x *X) stopDriver() {
	if x.cmd != nil {
		x.in.Close()
		x.cmd.Process.Kill()
		x.cmd.Wait()
		x.cmd = nil
	}
}

// API sends one request to the driver.  Deaths and time-outs come back as Panic.
func (x *X) API(q *Req) *Resp {
	if x.drv == "" {
		return nil
	}
	x.calls++
	if err := x.startDriver(); err != nil {
		return &Resp{Panic: "cannot start driver: " + err.Error()}
	}
	b, _ := json.Marshal(q)
	if q.Path != "" {
		x.distinct[x.last] = true
	} else {
		x.distinct[string(b)] = true
	}
	x.in.Write(append(b, '\n'))
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	out := x.out
	go func() {
		b, err := out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			x.stopDriver()
			return &Resp{Panic: "the process died"}
		}
		var rp Resp
		json.Unmarshal(r.b, &rp)
		return &rp
	case <-time.After(limit):
		x.stopDriver()
		return &Resp{Panic: errTimeout.Error()}
	}
}

// Put writes the files into a fresh directory and returns it
func (x *X) Put(files map[string]string) string {
	x.n++
	d := filepath.Join(x.dir, fmt.Sprintf("c%d", x.n%64))
	os.RemoveAll(d)
	x.last = fmt.Sprint(files)
	for n, s := range files {
		p := filepath.Join(d, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(s), 0o644)
	}
	return d
}

// Abs gives the files their place below d
func Abs(d string, files map[string]string) map[string]string {
	r := map[string]string{}
	for n, s := range files {
		r[filepath.Join(d, n)] = s
	}
	return r
}

type Out struct {
	Stdout, Stderr string
	Code           int
	Timeout        bool
}

func (x *X) CLI(dir string, env []string, args ...string) *Out {
	x.calls++
	x.distinct[fmt.Sprint(env, args, x.last)] = true
	c := exec.Command(x.bin, args...)
	c.Env = append([]string{"HOME=" + x.dir, "PATH=" + os.Getenv("PATH"), "TZ=UTC"}, env...)
	c.Dir = dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		return &Out{Stderr: err.Error(), Code: -1}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	o := &Out{}
	select {
	case <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		o.Timeout = true
	}
	o.Stdout, o.Stderr = so.String(), se.String()
	o.Code = c.ProcessState.ExitCode()
	return o
}

// crashed tells whether a run ended in a Go run-time failure
func (o *Out) crashed() bool {
	return strings.Contains(o.Stderr, "goroutine ") || strings.Contains(o.Stderr, "fatal error:") || strings.HasPrefix(o.Stderr, "panic:") || o.Code < 0 && !o.Timeout
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
func chance(r *rand.Rand, n int) bool     { return r.Intn(n) == 0 }
