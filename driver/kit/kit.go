// Package kit holds what the verification drivers share.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync/atomic"
	"time"
)

// Each decodes every line of stdin into a new T, passes it to fn and prints the result as a line.
func Each[T any](fn func(*T) any) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			t := new(T)
			if e := json.Unmarshal(line, t); e != nil {
				fmt.Fprintf(os.Stderr, "bad case: %v: %s\n", e, line)
				os.Exit(4)
			}
			if e := enc.Encode(fn(t)); e != nil {
				fmt.Fprintf(os.Stderr, "bad result: %v\n", e)
				os.Exit(4)
			}
		}
		if err != nil {
			return
		}
	}
}

var hangs atomic.Int32

// Guard runs fn and returns the text of a panic, "hang" if it doesn't return in time, or "".
// Once calls have hung repeatedly the limit gets shorter.
func Guard(limit time.Duration, fn func()) string {
	if n := hangs.Load(); n > 20 {
		limit = 20 * time.Millisecond
	} else if n > 2 {
		limit = min(limit, 500*time.Millisecond)
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
			} else {
				done <- ""
			}
		}()
		fn()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(limit):
		hangs.Add(1)
		return "hang"
	}
}

// Entry is a field of a decoded JSON object in order of appearance.
type Entry struct {
	K string  `json:"k"`
	J string  `json:"j"`
	F []Entry `json:"f"`
}

// Parse decodes one JSON object keeping order and duplicates.
// Leaves are "n:<number text>", "s:<string>", "b:<bool>", "z" and "a:<array>".
func Parse(line []byte) ([]Entry, error) {
	if !json.Valid(line) {
		return nil, fmt.Errorf("invalid JSON")
	}
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	if tok != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	es, err := object(dec)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return es, nil
}

func object(dec *json.Decoder) ([]Entry, error) {
	es := []Entry{}
	for {
		tok, err := dec.Token()
		if err != nil {
			return nil, err
		}
		if tok == json.Delim('}') {
			return es, nil
		}
		e := Entry{K: tok.(string), F: []Entry{}}
		tok, err = dec.Token()
		if err != nil {
			return nil, err
		}
		switch t := tok.(type) {
		case json.Delim:
			if t == '{' {
				e.J = "{"
				if e.F, err = object(dec); err != nil {
					return nil, err
				}
			} else {
				e.J = "a:["
				if err = array(dec, &e.J); err != nil {
					return nil, err
				}
			}
		default:
			e.J = leaf(tok)
		}
		es = append(es, e)
	}
}

func array(dec *json.Decoder, s *string) error {
	for {
		tok, err := dec.Token()
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case json.Delim:
			if t == ']' {
				*s += "]"
				return nil
			} else if t == '[' {
				*s += "["
				if err := array(dec, s); err != nil {
					return err
				}
			} else {
				es, err := object(dec)
				if err != nil {
					return err
				}
				b, _ := json.Marshal(es)
				*s += string(b)
			}
		default:
			*s += leaf(tok) + ";"
		}
	}
}

func leaf(tok json.Token) string {
	switch t := tok.(type) {
	case json.Number:
		return "n:" + string(t)
	case string:
		return "s:" + t
	case bool:
		return fmt.Sprintf("b:%t", t)
	}
	return "z"
}

var hung bool

// Run runs a command that is stopped if it doesn't come to an end.
func Run(cmd *exec.Cmd) error {
	if hung {
		return errors.New("not run after one that doesn't come to an end")
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() && err != nil {
		hung = true
		return errors.New("doesn't come to an end")
	}
	return err
}
