package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

// ---------------------------------------------------------------------------
// character classes: membership of every code point, as runs

type classReq struct {
	Class string   `json:"class"`
	From  uint32   `json:"from"`
	To    uint32   `json:"to"`
	Extra []uint32 `json:"extra"`
}

func runClass(raw json.RawMessage) interface{} {
	var q classReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	x := common.NewXmlChar()
	f := map[string]func(uint32) bool{"space": x.IsSpaceChar, "valid": x.IsValidChar, "namestart": x.IsNameStartChar,
		"name": x.IsNameChar, "content": x.IsContentChar}[q.Class]
	runs := [][2]uint32{}
	open := false
	for c := q.From; c <= q.To; c++ {
		if f(c) {
			if open {
				runs[len(runs)-1][1] = c
			} else {
				runs = append(runs, [2]uint32{c, c})
			}
		}
		open = len(runs) > 0 && runs[len(runs)-1][1] == c
	}
	extra := 0
	for _, c := range q.Extra {
		if f(c) {
			extra++
		}
	}
	return map[string]interface{}{"v": "ok", "runs": runs, "extra": extra}
}

// ---------------------------------------------------------------------------
// options of the parser, in any order

type cfgOpt struct {
	O   string `json:"o"`
	Nil bool   `json:"nil"`
	D   []int  `json:"d"`
	Off num    `json:"off"`
	Len num    `json:"len"`
	B   bool   `json:"b"`
	N   int    `json:"n"`
}

type cfgReq struct {
	Opts []cfgOpt `json:"opts"`
}

type cfgObs struct {
	docObs
	Cur  int `json:"cur"`
	N    int `json:"n"`
	Code int `json:"c"`
}

func runCfg(raw json.RawMessage) interface{} {
	var q cfgReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	var opts []parser.Option
	for _, o := range q.Opts {
		var d []byte
		if !o.Nil {
			d = toBytes(o.D)
		}
		switch o.O {
		case "doc":
			opts = append(opts, parser.WithXmlDoc(d))
		case "win":
			opts = append(opts, parser.WithXmlDocCustomOffset(d, o.Off.i(), o.Len.i()))
		case "ns":
			opts = append(opts, parser.WithNameSpaceAware(o.B))
		case "lc":
			opts = append(opts, parser.WithLcDepth(o.N))
		case "reuse":
			opts = append(opts, parser.WithBufferReuse(o.B))
		}
	}
	var obs cfgObs
	p, err := parser.NewVtdParser(opts...)
	if err != nil {
		obs.V, obs.Code = "new", code(err)
		if p != nil {
			obs.Code = 8
		}
		return obs
	}
	if err := p.Parse(); err != nil {
		obs.V = "err"
		obs.Kinds, obs.Line = classify(err)
		obs.Msg = err.Error()
		return obs
	}
	obs.V = "ok"
	l, err := locationCache(p)
	if err != nil {
		obs.V, obs.Msg = "lcerr", err.Error()
		return obs
	}
	obs.Lcs = cacheObs(l)
	nav, err := p.GetNav()
	if err != nil || nav == nil {
		obs.V = "naverr"
		return obs
	}
	obs.N, obs.Enc = nav.GetVtdBufferSize(), int(nav.GetEncoding())
	cur, err := nav.GetCurrentIndex()
	if err != nil {
		cur = -9
	}
	obs.Cur = int(cur)
	obs.Tok, err = tokens(nav)
	if err != nil {
		obs.V, obs.Msg = "tokerr", err.Error()
	}
	return obs
}

// ---------------------------------------------------------------------------
// several parsers and navigators, their operations in a given order

const nSteps = 8

type part struct {
	q   docReq
	of  *part // navigates the document of another participant
	p   *parser.VtdParser
	buf []byte
	nav *navigation.VtdNav
	obs docObs
	pc  int
}

// step does the next operation of a participant: construct, parse, obtain
// navigator, tokens, walk (in three parts), strings. The first two are
// nothing for a participant that has only a navigator of its own.
func (t *part) step() {
	k := t.pc
	t.pc++
	defer func() {
		if r := recover(); r != nil {
			t.obs.V, t.obs.Msg = "panic", fmt.Sprint(r)
		}
	}()
	if k > 0 && t.obs.V != "ok" {
		return
	}
	var err error
	switch k {
	case 0:
		t.obs.V = "ok"
		if t.of != nil {
			return
		}
		t.p, t.buf, err = newParser(&t.q)
		if err != nil {
			t.obs.V = "new"
		}
	case 1:
		if t.of != nil {
			return
		}
		if err = t.p.Parse(); err != nil {
			t.obs.V = "err"
			t.obs.Kinds, t.obs.Line = classify(err)
		}
	case 2:
		p := t.p
		if t.of != nil {
			p = t.of.p
			if t.of.obs.V != "ok" {
				t.obs = t.of.obs
				return
			}
		}
		if t.nav, err = p.GetNav(); err != nil || t.nav == nil {
			t.obs.V = "naverr"
		}
	case 3:
		if t.obs.Tok, err = tokens(t.nav); err != nil {
			t.obs.V = "tokerr"
		}
		t.obs.Enc = int(t.nav.GetEncoding())
	case 4, 5, 6:
		if w := t.q.Walk; w != nil {
			n := len(w)
			t.obs.Walk = append(t.obs.Walk, walk(t.nav, w[n*(k-4)/3:n*(k-3)/3])...)
		}
	case 7:
		if t.obs.StrB, t.obs.RawB, err = texts(t.nav); err != nil {
			t.obs.V = "strerr"
		}
	}
}

type schedReq struct {
	Parts []docReq `json:"parts"`
	Share []int    `json:"share"` // -1: has a parser; k: navigates the document of participant k
	Order []int    `json:"order"`
	Gor   bool     `json:"gor"`
}

func runSched(raw json.RawMessage) interface{} {
	var q schedReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	parts := make([]*part, len(q.Parts))
	keep := make([][]byte, len(q.Parts))
	for i := range q.Parts {
		parts[i] = &part{q: q.Parts[i]}
		b, _, _ := q.Parts[i].buffer()
		keep[i] = b
	}
	for i, k := range q.Share {
		if k >= 0 {
			parts[i].of, parts[i].q.D = parts[k], q.Parts[k].D
		}
	}
	if q.Gor {
		// every participant in a goroutine of its own, handing over in order
		turn := make([]chan bool, len(parts))
		done := make(chan bool)
		for i := range parts {
			turn[i] = make(chan bool)
			go func(i int) {
				runtime.LockOSThread()
				for range turn[i] {
					parts[i].step()
					done <- true
				}
			}(i)
		}
		for _, i := range q.Order {
			turn[i] <- true
			<-done
		}
		for i := range parts {
			close(turn[i])
		}
	} else {
		for _, i := range q.Order {
			parts[i].step()
		}
	}
	out := []docObs{}
	for i, t := range parts {
		if t.buf != nil && string(keep[i]) != string(t.buf) {
			t.obs.Mut = true
		}
		out = append(out, t.obs)
	}
	return map[string]interface{}{"v": "ok", "parts": out}
}

// race runs all given documents in many goroutines at once (built with the
// race detector) and compares with what each gives alone
func race() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var reqs []docReq
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var q docReq
			if err := json.Unmarshal(line, &q); err != nil {
				fmt.Fprintln(os.Stderr, "harness: "+err.Error())
				os.Exit(2)
			}
			reqs = append(reqs, q)
		}
		if err == io.EOF {
			break
		}
	}
	one := func(q docReq) docObs {
		t := &part{q: q}
		t.step()
		t.step()
		// navigators of the same document, at the same time
		var others [2]*part
		var wg sync.WaitGroup
		for i := range others {
			others[i] = &part{q: q, of: t}
			wg.Add(1)
			go func(o *part) {
				defer wg.Done()
				for k := 0; k < nSteps; k++ {
					o.step()
				}
			}(others[i])
		}
		if t.obs.V == "ok" {
			// t.obs is read by the others when they begin
			m := &part{q: q, of: t}
			for k := 0; k < nSteps; k++ {
				m.step()
			}
			wg.Wait()
			t.obs = m.obs
		}
		wg.Wait()
		for _, o := range others {
			if !reflect.DeepEqual(o.obs, t.obs) {
				t.obs.Msg = "navigators of the same document differ"
			}
		}
		b, _, _ := q.buffer()
		t.obs.Mut = t.buf != nil && string(b) != string(t.buf)
		return t.obs
	}
	// in parallel first, so that nothing has been initialised by a serial run
	const workers = 8
	got := make([][]docObs, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(w)))
			got[w] = make([]docObs, len(reqs))
			// the first goes to all workers at the same time
			perm := append([]int{0}, r.Perm(len(reqs))...)
			for _, i := range perm {
				got[w][i] = one(reqs[i])
			}
		}(w)
	}
	wg.Wait()
	bad := map[int]string{}
	for i, q := range reqs {
		ref := one(q)
		for w := range got {
			if !reflect.DeepEqual(ref, got[w][i]) {
				a, _ := json.Marshal(got[w][i])
				b, _ := json.Marshal(ref)
				bad[i] = fmt.Sprintf("in parallel %.300s, alone %.300s", a, b)
			}
		}
	}
	var ks []int
	for i := range bad {
		ks = append(ks, i)
	}
	sort.Ints(ks)
	type res struct {
		I    int    `json:"i"`
		What string `json:"what"`
	}
	out := []res{}
	for _, i := range ks {
		out = append(out, res{i, bad[i]})
	}
	b, _ := json.Marshal(map[string]interface{}{"runs": workers * len(reqs), "bad": out})
	fmt.Fprintln(os.Stderr, "RESULT "+string(b))
}

func init() {
	handlers["class"] = runClass
	handlers["cfg"] = runCfg
	handlers["sched"] = runSched
}
