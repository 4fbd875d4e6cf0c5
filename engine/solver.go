package main

// A long-lived SMT solver process driven over SMT-LIB 2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	name    string
	args    []string
	timeout int // ms per query
	buf     strings.Builder

	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Errors                       []string
	dead                         bool
}

// slowLog gets slow queries, for debugging.
var slowLog = func() *os.File {
	n := os.Getenv("GOSYM_SLOW")
	if n == "" {
		return nil
	}
	f, _ := os.Create(n)
	return f
}()

func lastOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func newSolver(timeoutMS int, argv ...string) (*Solver, error) {
	s := &Solver{name: argv[0], args: argv[1:], timeout: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n")
	if strings.Contains(s.name, "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(&s.buf, "(set-option :produce-models true)\n(set-logic ALL)\n")
	}
	s.dead = false
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) write(f string) { s.buf.WriteString(f) }

func (s *Solver) assert(t *Term) {
	t.emit(&s.buf)
	s.buf.WriteString("(assert ")
	s.buf.WriteString(t.ref())
	s.buf.WriteString(")\n")
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check returns "sat", "unsat" or "unknown".
func (s *Solver) check() string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	s.Queries++
	s.buf.WriteString("(check-sat)\n")
	wrote := s.buf.Len()
	var sent string
	if slowLog != nil {
		sent = s.buf.String()
	}
	if err := s.flush(); err != nil {
		s.dead = true
		s.Unknown++
		return "unknown"
	}
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			s.Unknown++
			s.Errors = append(s.Errors, "solver died: "+err.Error())
			return "unknown"
		}
		if strings.HasPrefix(l, "(error") {
			if len(s.Errors) < 20 {
				s.Errors = append(s.Errors, l)
			}
			s.dead = true // anything after an error is inconclusive
			s.Unknown++
			return "unknown"
		}
		switch l {
		case "sat":
			s.Sat++
		case "unsat":
			s.Unsat++
		case "unknown", "timeout":
			s.Unknown++
			l = "unknown"
		default:
			continue
		}
		d := time.Since(t0)
		s.Time += d
		if slowLog != nil && d > 300*time.Millisecond {
			fmt.Fprintf(slowLog, "; %v %s wrote %d\n%s\n", d, l, wrote, lastOf(sent, 3000))
		}
		return l
	}
}

// values asks for the values of vars (after sat).
func (s *Solver) values(vars []*Term, out map[string]uint64) error {
	const chunk = 200
	t0 := time.Now()
	defer func() {
		if slowLog != nil && time.Since(t0) > 300*time.Millisecond {
			fmt.Fprintf(slowLog, "; values %v %d vars\n", time.Since(t0), len(vars))
		}
	}()
	for i := 0; i < len(vars); i += chunk {
		j := min(i+chunk, len(vars))
		s.buf.WriteString("(get-value (")
		for _, v := range vars[i:j] {
			s.buf.WriteString(v.name)
			s.buf.WriteByte(' ')
		}
		s.buf.WriteString("))\n")
		if err := s.flush(); err != nil {
			return err
		}
		depth := 0
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return err
			}
			if strings.HasPrefix(l, "(error") {
				s.Errors = append(s.Errors, l)
				return fmt.Errorf("%s", l)
			}
			sb.WriteString(l)
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
		for k := 0; k+1 < len(toks); k += 2 {
			v := toks[k+1]
			switch {
			case v == "true":
				out[toks[k]] = 1
			case v == "false":
				out[toks[k]] = 0
			case strings.HasPrefix(v, "#x"):
				n, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return err
				}
				out[toks[k]] = n
			case strings.HasPrefix(v, "#b"):
				n, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return err
				}
				out[toks[k]] = n
			default:
				return fmt.Errorf("unexpected model value %q for %s", v, toks[k])
			}
		}
	}
	return nil
}
