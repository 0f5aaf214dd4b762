package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
)

// chains of errors: what each one wraps, finds, is and says

type errReq struct {
	Errs []struct {
		K string `json:"k"`
		C int    `json:"c"`
		M []int  `json:"m"`
		P []int  `json:"p"`
	} `json:"errs"`
}

type chainObs struct {
	Unwrap int   `json:"unwrap"`
	As     []int `json:"as"`
	Is     []int `json:"is"`
	Text   []int `json:"text"`
	Msg    []int `json:"msg"`
	Par    []int `json:"par"`
	Line   []int `json:"line"`
}

func text(b []int) string {
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x)
	}
	return string(s)
}

func codes(s string) []int {
	b := make([]int, len(s))
	for i := range b {
		b[i] = int(s[i])
	}
	return b
}

func make1(k, m, p string, c error) error {
	switch k {
	case "arg":
		return erroring.NewInvalidArgumentError(p, m, c)
	case "internal":
		return erroring.NewInternalError(m, c)
	case "parse":
		return erroring.NewParseError(m, p, c)
	case "nav":
		return erroring.NewNavigationError(m, c)
	case "encoding":
		return erroring.NewEncodingError(m)
	case "decoding":
		return erroring.NewDecodingError(m)
	case "entity":
		return erroring.NewEntityError(m)
	case "eof":
		return erroring.NewEOFError(m)
	case "modify":
		return erroring.NewModifyError(m)
	case "plain":
		return errors.New(m)
	case "wrap":
		return fmt.Errorf("%s: %w", m, c)
	case "zero-arg":
		return &erroring.InvalidArgumentError{}
	case "zero-parse":
		return &erroring.ParseError{}
	case "zero-eof":
		return &erroring.EOFError{}
	case "zero-entity":
		return &erroring.EntityError{}
	}
	return nil
}

func runErrs(raw json.RawMessage) interface{} {
	var q errReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	var es []error
	for _, e := range q.Errs {
		var c error
		if e.C > 0 {
			c = es[e.C-1]
		}
		es = append(es, make1(e.K, text(e.M), text(e.P), c))
	}
	index := func(x error) int {
		if x == nil {
			return 0
		}
		for i, e := range es {
			if e == x {
				return i + 1
			}
		}
		return -1
	}
	out := []chainObs{}
	for _, e := range es {
		o := chainObs{Unwrap: index(errors.Unwrap(e)), Is: []int{}, Text: codes(e.Error()), Msg: []int{}, Par: []int{}, Line: []int{}}
		var ea *erroring.InvalidArgumentError
		var ei *erroring.InternalError
		var ep *erroring.ParseError
		var en *erroring.NavigationError
		var ee *erroring.EncodingError
		var ed *erroring.DecodingError
		var et *erroring.EntityError
		var ef *erroring.EOFError
		var em *erroring.ModifyError
		found := func(ok bool, x error) {
			if !ok {
				o.As = append(o.As, 0)
			} else {
				o.As = append(o.As, index(x))
			}
		}
		ok := errors.As(e, &ea)
		found(ok, ea)
		ok = errors.As(e, &ei)
		found(ok, ei)
		ok = errors.As(e, &ep)
		found(ok, ep)
		ok = errors.As(e, &en)
		found(ok, en)
		ok = errors.As(e, &ee)
		found(ok, ee)
		ok = errors.As(e, &ed)
		found(ok, ed)
		ok = errors.As(e, &et)
		found(ok, et)
		ok = errors.As(e, &ef)
		found(ok, ef)
		ok = errors.As(e, &em)
		found(ok, em)
		for j, t := range es {
			if errors.Is(e, t) {
				o.Is = append(o.Is, j+1)
			}
		}
		switch x := e.(type) {
		case *erroring.InvalidArgumentError:
			o.Msg, o.Par = codes(x.Msg), codes(x.Parameter)
		case *erroring.ParseError:
			o.Msg, o.Line = codes(x.Msg), codes(x.LineNumber)
		case *erroring.NavigationError:
			o.Msg = codes(x.Msg)
		case *erroring.EncodingError:
			o.Msg = codes(x.Msg)
		case *erroring.DecodingError:
			o.Msg = codes(x.Msg)
		case *erroring.EntityError:
			o.Msg = codes(x.Msg)
		case *erroring.EOFError:
			o.Msg = codes(x.Msg)
		case *erroring.ModifyError:
			o.Msg = codes(x.Msg)
		}
		out = append(out, o)
	}
	return map[string]interface{}{"v": "ok", "obs": out}
}

func init() { handlers["errs"] = runErrs }
