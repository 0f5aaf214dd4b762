package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"reflect"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// docReq is a document (bytes, or runs of bytes) in a window of a buffer
type docReq struct {
	D    []int           `json:"d"`
	R    [][]interface{} `json:"r"` // [[count,[bytes]],...]
	Pre  []int           `json:"pre"`
	Post []int           `json:"post"`
	PreN int             `json:"pren"` // so many bytes (Fill) before Pre,
	PosN int             `json:"posn"` // and behind Post
	Fill int             `json:"fill"`
	Win  bool            `json:"win"` // use WithXmlDocCustomOffset
	Base int             `json:"base"`
	Ns   bool            `json:"ns"`
	Lc   int             `json:"lc"`
	// what to observe
	Tok  bool    `json:"tok"`
	Lcs  bool    `json:"lcs"`
	Str  bool    `json:"str"`
	StrR bool    `json:"strr"` // strings as runs, for long ones
	Walk []int   `json:"walk"`
	Acc  bool    `json:"acc"` // exercise every accessor with odd arguments
	Rng  [][]int `json:"rng"` // ranges for ToStringAtRange
}

type docObs struct {
	V     string      `json:"v"`
	Kinds []string    `json:"kinds,omitempty"`
	Odd   []string    `json:"odd,omitempty"` // operations that failed with a foreign error
	Line  string      `json:"line,omitempty"`
	Msg   string      `json:"msg,omitempty"`
	Tok   [][]int     `json:"tok,omitempty"`
	Lcs   [][][]int64 `json:"lcs,omitempty"`
	Walk  [][]int     `json:"walk,omitempty"`
	Rng   [][]int     `json:"rng,omitempty"`
	RngR  [][]int     `json:"rngr,omitempty"`
	StrR  [][][2]int  `json:"strr,omitempty"`
	RawR  [][][2]int  `json:"rawr,omitempty"`
	StrB  [][]int     `json:"strb,omitempty"`
	RawB  [][]int     `json:"rawb,omitempty"`
	Mut   bool        `json:"mut,omitempty"`
	Enc   int         `json:"enc"`
}

func toBytes(a []int) []byte {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return b
}

func toInts(b []byte) []int {
	a := make([]int, len(b))
	for i, x := range b {
		a[i] = int(x)
	}
	return a
}

func (r *docReq) buffer() (buf []byte, off, length int) {
	var doc []byte
	if r.R != nil {
		for _, run := range r.R {
			n := int(run[0].(float64))
			var piece []byte
			for _, x := range run[1].([]interface{}) {
				piece = append(piece, byte(x.(float64)))
			}
			doc = append(doc, bytes.Repeat(piece, n)...)
		}
	} else {
		doc = toBytes(r.D)
	}
	fill := []byte{byte(r.Fill)}
	pre := append(bytes.Repeat(fill, r.PreN), toBytes(r.Pre)...)
	post := append(toBytes(r.Post), bytes.Repeat(fill, r.PosN)...)
	// a buffer of exactly the right capacity: reads behind it panic
	buf = make([]byte, 0, len(pre)+len(doc)+len(post))
	buf = append(buf, pre...)
	buf = append(buf, doc...)
	buf = append(buf, post...)
	return buf, len(pre), len(doc)
}

// classify lists the typed errors found along the chain
func classify(err error) (kinds []string, line string) {
	var (
		arg *erroring.InvalidArgumentError
		itn *erroring.InternalError
		prs *erroring.ParseError
		nav *erroring.NavigationError
		enc *erroring.EncodingError
		dec *erroring.DecodingError
		ent *erroring.EntityError
		eof *erroring.EOFError
		mod *erroring.ModifyError
	)
	add := func(ok bool, n string) {
		if ok {
			kinds = append(kinds, n)
		}
	}
	add(errors.As(err, &arg), "arg")
	add(errors.As(err, &itn), "internal")
	add(errors.As(err, &prs), "parse")
	add(errors.As(err, &nav), "nav")
	add(errors.As(err, &enc), "encoding")
	add(errors.As(err, &dec), "decoding")
	add(errors.As(err, &ent), "entity")
	add(errors.As(err, &eof), "eof")
	add(errors.As(err, &mod), "modify")
	if prs != nil {
		line = prs.LineNumber
	}
	return kinds, line
}

func newParser(r *docReq) (*parser.VtdParser, []byte, error) {
	buf, off, length := r.buffer()
	var opts []parser.Option
	if r.Win || off > 0 || length < len(buf) {
		opts = append(opts, parser.WithXmlDocCustomOffset(buf, off, length))
	} else {
		opts = append(opts, parser.WithXmlDoc(buf))
	}
	opts = append(opts, parser.WithNameSpaceAware(r.Ns))
	if r.Lc != 0 {
		opts = append(opts, parser.WithLcDepth(r.Lc))
	}
	p, err := parser.NewVtdParser(opts...)
	return p, buf, err
}

// tokens lists [type, depth, offset, length] of every token as the navigator
// reports them
func tokens(nav *navigation.VtdNav) ([][]int, error) {
	n := nav.GetVtdBufferSize()
	out := make([][]int, 0, n)
	for i := 0; i < n; i++ {
		t, err := nav.GetTokenType(i)
		if err != nil {
			return nil, err
		}
		d, err := nav.GetTokenDepth(i)
		if err != nil {
			return nil, err
		}
		o, err := nav.GetTokenOffset(i)
		if err != nil {
			return nil, err
		}
		l, err := nav.GetTokenLength(i)
		if err != nil {
			return nil, err
		}
		out = append(out, []int{int(t), int(d), int(o), int(l)})
	}
	return out, nil
}

// texts are the strings and raw strings of all tokens
func texts(nav *navigation.VtdNav) (str, raw [][]int, err error) {
	n := nav.GetVtdBufferSize()
	for i := 0; i < n; i++ {
		s, err := nav.ToStringAtIndex(i)
		if err != nil {
			return nil, nil, err
		}
		str = append(str, toInts([]byte(s)))
		s, err = nav.ToRawStringAtIndex(i)
		if err != nil {
			return nil, nil, err
		}
		raw = append(raw, toInts([]byte(s)))
	}
	return str, raw, nil
}

// runs are the bytes of a string as [count, byte]
func runs(s string) [][2]int {
	out := [][2]int{}
	for i := 0; i < len(s); i++ {
		if k := len(out) - 1; k >= 0 && out[k][1] == int(s[i]) {
			out[k][0]++
		} else {
			out = append(out, [2]int{1, int(s[i])})
		}
	}
	return out
}

// cacheObs splits location cache entries into halves
func cacheObs(l [][]int64) [][][]int64 {
	var out [][][]int64
	for _, level := range l {
		lv := [][]int64{}
		for _, v := range level {
			lv = append(lv, []int64{int64(int32(v >> 32)), int64(int32(v))})
		}
		out = append(out, lv)
	}
	return out
}

func runDoc(raw json.RawMessage) interface{} {
	var r docReq
	if err := json.Unmarshal(raw, &r); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	p, buf, err := newParser(&r)
	if err != nil {
		k, _ := classify(err)
		return docObs{V: "new", Kinds: k, Msg: err.Error()}
	}
	keep := append([]byte(nil), buf...)
	var odd []string
	if r.Acc {
		// a navigator of nothing
		if nav, err := p.GetNav(); err == nil && nav != nil {
			odd = probe(nav, buf)
		}
	}
	err = p.Parse()
	obs := docObs{V: "ok", Odd: odd}
	if !bytes.Equal(keep, buf) {
		obs.Mut = true
	}
	if err != nil {
		obs.V = "err"
		obs.Kinds, obs.Line = classify(err)
		obs.Msg = err.Error()
		if r.Acc {
			// whatever is left of the attempt must not panic either
			if nav, err := p.GetNav(); err == nil && nav != nil {
				obs.Odd = append(obs.Odd, probe(nav, buf)...)
			}
			p.Parse()
			if nav, err := p.GetNav(); err == nil && nav != nil {
				obs.Odd = append(obs.Odd, probe(nav, buf)...)
			}
		}
		return obs
	}
	if r.Lcs {
		l, err := locationCache(p)
		if err != nil {
			obs.V, obs.Msg = "lcerr", err.Error()
			return obs
		}
		obs.Lcs = cacheObs(l)
	}
	if !r.Tok && !r.Str && !r.StrR && r.Walk == nil && !r.Acc && r.Rng == nil {
		return obs
	}
	nav, err := p.GetNav()
	if err != nil || nav == nil {
		obs.V = "naverr"
		if err != nil {
			obs.Msg = err.Error()
		}
		return obs
	}
	obs.Enc = int(nav.GetEncoding())
	if r.Tok {
		t, err := tokens(nav)
		if err != nil {
			obs.V, obs.Msg = "tokerr", err.Error()
			return obs
		}
		obs.Tok = t
	}
	if r.Walk != nil {
		obs.Walk = walk(nav, r.Walk)
	}
	if r.Str {
		obs.StrB, obs.RawB, err = texts(nav)
		if err != nil {
			obs.V, obs.Msg = "strerr", err.Error()
			return obs
		}
	}
	if r.Rng != nil {
		for _, x := range r.Rng {
			s, err := nav.ToStringAtRange(int32(x[0]), int32(x[1]))
			if err != nil {
				obs.V, obs.Msg = "strerr", err.Error()
				return obs
			}
			obs.Rng = append(obs.Rng, toInts([]byte(s)))
			s, err = nav.ToRawStringAtRange(int32(x[0]), int32(x[1]))
			if err != nil {
				obs.V, obs.Msg = "strerr", err.Error()
				return obs
			}
			obs.RngR = append(obs.RngR, toInts([]byte(s)))
		}
	}
	if r.StrR {
		n := nav.GetVtdBufferSize()
		for i := 0; i < n; i++ {
			s, err := nav.ToStringAtIndex(i)
			if err != nil {
				obs.V, obs.Msg = "strerr", err.Error()
				return obs
			}
			obs.StrR = append(obs.StrR, runs(s))
			s, err = nav.ToRawStringAtIndex(i)
			if err != nil {
				obs.V, obs.Msg = "strerr", err.Error()
				return obs
			}
			obs.RawR = append(obs.RawR, runs(s))
		}
	}
	if r.Acc {
		obs.Odd = append(obs.Odd, probe(nav, buf)...)
		if err := p.Parse(); err != nil {
			if k, _ := classify(err); len(k) == 0 {
				obs.Odd = append(obs.Odd, "second parse")
			}
		}
		if nav, err := p.GetNav(); err == nil && nav != nil {
			obs.Odd = append(obs.Odd, probe(nav, buf)...)
		}
	}
	if !bytes.Equal(keep, buf) {
		obs.Mut = true
	}
	return obs
}

// probe calls every operation with ordinary and odd arguments; it returns those
// that failed with an error that is none of the library's. Otherwise only
// panics, crashes and hangs matter.
func probe(nav *navigation.VtdNav, buf []byte) (odd []string) {
	see := func(op string, err error) {
		if err != nil && len(odd) < 5 {
			if k, _ := classify(err); len(k) == 0 {
				odd = append(odd, op)
			}
		}
	}
	n := nav.GetVtdBufferSize()
	idx := []int{-1 << 63, -1 << 31, -2, -1, n, n + 1, n + 63, n + 1024, 1<<31 - 1, 1 << 31, 1<<63 - 1}
	for i := 0; i < n && i < 40; i++ {
		idx = append(idx, i)
	}
	for _, i := range idx {
		_, err := nav.GetTokenType(i)
		see("type", err)
		_, err = nav.GetTokenDepth(i)
		see("depth", err)
		_, err = nav.GetTokenOffset(i)
		see("offset", err)
		_, err = nav.GetTokenLength(i)
		see("length", err)
		_, err = nav.ToStringAtIndex(i)
		see("string", err)
		_, err = nav.ToRawStringAtIndex(i)
		see("raw string", err)
	}
	l := int32(len(buf))
	offs := []int32{-1 << 31, -1, l / 2, l - 2, l - 1, l, l + 1, 1<<31 - 1}
	lens := []int32{-1 << 31, -1, 0, 1, 2, 5, l + 1}
	if l < 20000 {
		lens = append(lens, l, 70000)
		for i := int32(0); i < 48 && i < l; i++ {
			offs = append(offs, i)
		}
	}
	for _, o := range offs {
		for _, k := range lens {
			_, err := nav.ToStringAtRange(o, k)
			see("string range", err)
			_, err = nav.ToRawStringAtRange(o, k)
			see("raw string range", err)
		}
	}
	for round := 0; round < 3; round++ {
		for _, d := range []int{-1, 0, 1, 1, 1, 2, 3, 4, 5, 6, 3, 2, 2, 2, 5, 4, 3, 3, 1 << 30, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 5, 1} {
			_, err := nav.ToElement(navigation.Direction(d))
			see("move", err)
			_, err = nav.GetCurrentIndex()
			see("index", err)
		}
	}
	return odd
}

// walk performs moves and records [result, current index] after each, result
// being 1, 0 or, for an error, 2
func walk(nav *navigation.VtdNav, dirs []int) [][]int {
	var out [][]int
	for _, d := range dirs {
		ok, err := nav.ToElement(navigation.Direction(d))
		r := 0
		if err != nil {
			r = 2
			k, _ := classify(err)
			for _, x := range k {
				if x == "nav" {
					r = 3
				}
			}
			if ok {
				r = 4
			}
		} else if ok {
			r = 1
		}
		cur, err := nav.GetCurrentIndex()
		if err != nil {
			cur = -1
		}
		out = append(out, []int{r, int(cur)})
	}
	return out
}

// manyReq is a lot of documents of which little is observed
type manyReq struct {
	Ds  []docReq `json:"ds"`
	Tok int      `json:"tok"` // 1: tokens, 2: errors
}

type errObs struct {
	Kinds []string `json:"kinds"`
	Line  string   `json:"line"`
}

// runMany tells for each document whether it is accepted ("1"), refused with
// an error ("0") or something else ("?"), and its tokens or error
func runMany(raw json.RawMessage) interface{} {
	var q manyReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	out := make([]byte, len(q.Ds))
	toks, errs := make([][][]int, len(q.Ds)), make([]errObs, len(q.Ds))
	for i := range q.Ds {
		var err error
		out[i], toks[i], err = verdict(&q.Ds[i], q.Tok == 1)
		if q.Tok == 2 && err != nil {
			errs[i].Kinds, errs[i].Line = classify(err)
		}
	}
	res := map[string]interface{}{"v": "ok", "x": string(out)}
	switch q.Tok {
	case 1:
		res["t"] = toks
	case 2:
		res["e"] = errs
	}
	return res
}

func verdict(r *docReq, tok bool) (v byte, t [][]int, err error) {
	defer func() {
		if recover() != nil {
			v = '?'
		}
	}()
	p, _, err := newParser(r)
	if err != nil {
		return '?', nil, nil
	}
	if err := p.Parse(); err != nil {
		return '0', nil, err
	}
	if tok {
		nav, err := p.GetNav()
		if err != nil {
			return '?', nil, nil
		}
		if t, err = tokens(nav); err != nil {
			return '?', nil, nil
		}
	}
	return '1', t, nil
}

func init() {
	handlers["doc"] = runDoc
	handlers["many"] = runMany
}
