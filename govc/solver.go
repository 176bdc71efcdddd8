package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type SolverStats struct {
	sync.Mutex
	Queries int
	Time    time.Duration
	By      map[string]int
}

var Stats = &SolverStats{By: map[string]int{}}

// persistent z3 process for quick feasibility checks
type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() *z3proc {
	c := exec.Command("z3", "-in", "-smt2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &z3proc{c, in, bufio.NewReader(out)}
}

func (z *z3proc) check(script string, ms int) string {
	io.WriteString(z.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms)+"(set-option :smt.mbqi false)\n"+script+"(check-sat)\n(echo \"done\")\n")
	res := "unknown"
	for {
		l, err := z.out.ReadString('\n')
		if err != nil {
			return "dead"
		}
		l = strings.TrimSpace(l)
		l = strings.Trim(l, "\"")
		if l == "done" {
			return res
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Println("z3 error:", l)
			return "error"
		}
	}
}
func (z *z3proc) close() {
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

type Result struct {
	Status  string // unsat / sat / unknown
	By      string
	Model   string
	Time    time.Duration
	Attempt string
}

func runSolver(name string, args []string, script string, to time.Duration) (string, string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	t0 := time.Now()
	c.Run()
	d := time.Since(t0)
	s := out.String()
	st := "unknown"
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			st = l
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
	}
	return st, s, d
}

type backend struct {
	name string
	cmd  string
	args func(sec int) []string
	pre  string
}

var backends = []backend{
	{"z3-4.8.12", "z3", func(s int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :smt.mbqi false)\n"},
	{"z3-new", "z3-new", func(s int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :smt.mbqi false)\n"},
	{"cvc5-1.1.2", "cvc5", func(s int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant"}
	}, "(set-logic ALL)\n"},
}

// proveWith tries the given back ends in order.
func proveWith(bes []backend, body string, sec int, r *Result) bool {
	for _, be := range bes {
		st, _, d := runSolver(be.cmd, be.args(sec), be.pre+body+"(check-sat)\n", time.Duration(sec)*time.Second)
		r.Time += d
		Stats.Lock()
		Stats.Queries++
		Stats.Time += d
		Stats.By[be.name]++
		Stats.Unlock()
		r.Attempt += fmt.Sprintf("%s: %s (%.2fs); ", be.name, st, d.Seconds())
		if st == "unsat" || st == "sat" {
			r.Status, r.By = st, be.name
			return true
		}
	}
	return false
}

// counterModel runs z3 with model-based instantiation; it may still prove the goal.
func counterModel(body string, r *Result) {
	st, out, d := runSolver("z3", []string{"-in", "-smt2", "-T:3"}, body+"(check-sat)\n(get-model)\n", 3*time.Second)
	r.Time += d
	if st == "unsat" {
		r.Status, r.By = "unsat", "z3-4.8.12(mbqi)"
		return
	}
	if st == "sat" {
		r.Status = "sat"
	}
	if len(out) > 6000 {
		out = out[:6000] + "\n..."
	}
	r.Model = out
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
