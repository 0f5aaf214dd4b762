package main

import (
	"encoding/json"
	"math"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// Integers that do not fit the model's 32 bit integers are given as
// [class, delta]; see spec/Ints.tla.
type num [2]int64

func (n num) i() int {
	switch n[0] {
	case 1:
		return int(math.MaxInt64 + n[1])
	case 2:
		return int(math.MinInt64 + n[1])
	case 3:
		return int(1<<31 + n[1])
	case 4:
		return int(-1<<31 + n[1])
	case 5:
		return int(1<<32 + n[1])
	case 6:
		return int(1<<62 + n[1])
	}
	return int(n[1])
}

// code of an outcome: 0 success, 1 invalid argument error, 2 other typed
// error, 3 end of input error, 4 an error that is none of the library's
func code(err error) int {
	if err == nil {
		return 0
	}
	k, _ := classify(err)
	if len(k) == 0 {
		return 4
	}
	for _, x := range k {
		if x == "eof" {
			return 3
		}
	}
	for _, x := range k {
		if x == "arg" {
			return 1
		}
	}
	return 2
}

const panicked = 9

func halves(v int64) [2]int64 { return [2]int64{int64(int32(v >> 32)), int64(int32(v))} }
func whole(hi, lo int64) int64 {
	return hi<<32 | int64(uint32(int32(lo)))
}

// ---------------------------------------------------------------------------
// vectors

type vecOp struct {
	O string  `json:"o"`
	I num     `json:"i"`
	V []int64 `json:"v"`
	N int     `json:"n"`
}

type vecReq struct {
	Kind string  `json:"kind"`
	Exp  int     `json:"exp"`
	Ops  []vecOp `json:"ops"`
}

type vecRes struct {
	C   int        `json:"c"`
	N   int        `json:"n"`
	Get [][2]int64 `json:"get"`
	Exp [][2]int64 `json:"exp"`
	Up  []int64    `json:"up"`
	Lo  []int64    `json:"lo"`
	Bad []int      `json:"bad"`
	Msg string     `json:"msg,omitempty"`
}

type vector interface {
	app(v int64) error
	set(i int, v int64) error
	get(i int) (int64, error)
	up(i int) (int64, error)
	lo(i int) (int64, error)
	exp() ([]int64, error)
	size() int
	setSize(n int)
	clear()
	halfs() bool
	exports() bool
}

type longVec struct{ *buffer.FastLongBuffer }

func (b longVec) app(v int64) error        { return b.Append(v) }
func (b longVec) set(i int, v int64) error { return b.ModifyEntry(i, v) }
func (b longVec) get(i int) (int64, error) { return b.LongAt(i) }
func (b longVec) up(i int) (int64, error)  { v, err := b.Upper32At(i); return int64(v), err }
func (b longVec) lo(i int) (int64, error)  { v, err := b.Lower32At(i); return int64(v), err }
func (b longVec) exp() ([]int64, error)    { return b.ToLongArray() }
func (b longVec) size() int                { return b.GetSize() }
func (b longVec) setSize(n int)            { b.SetSize(n) }
func (b longVec) clear()                   { b.Clear() }
func (b longVec) halfs() bool              { return true }
func (b longVec) exports() bool            { return true }

type intVec struct{ *buffer.FastIntBuffer }

func (b intVec) app(v int64) error        { return b.Append(int32(v)) }
func (b intVec) set(i int, v int64) error { return b.ModifyEntry(i, int32(v)) }
func (b intVec) get(i int) (int64, error) { v, err := b.IntAt(i); return int64(v), err }
func (b intVec) up(i int) (int64, error)  { return 0, nil }
func (b intVec) lo(i int) (int64, error)  { return 0, nil }
func (b intVec) exp() ([]int64, error) {
	a, err := b.ToIntArray()
	var out []int64
	for _, x := range a {
		out = append(out, int64(x))
	}
	return out, err
}
func (b intVec) size() int     { return b.GetSize() }
func (b intVec) setSize(n int) { b.SetSize(n) }
func (b intVec) clear()        { b.Clear() }
func (b intVec) halfs() bool   { return false }
func (b intVec) exports() bool { return true }

// objects of various kinds, told apart by identity where they have one
type objVec struct {
	*buffer.FastObjectBuffer
	seen map[interface{}]int64
}

type thing struct{ id int64 }

func (b objVec) object(v int64) interface{} {
	switch v % 5 {
	case 0:
		return nil
	case 1:
		p := &thing{v}
		b.seen[p] = v
		return p
	case 2:
		return "s" + string(rune(0x4e00+v))
	case 3:
		return []int64{v}
	}
	return v
}

func (b objVec) id(o interface{}) int64 {
	switch x := o.(type) {
	case nil:
		return 0
	case *thing:
		if v, ok := b.seen[x]; ok && x.id == v {
			return v
		}
	case string:
		r := []rune(x)
		if len(r) == 2 {
			return int64(r[1]) - 0x4e00
		}
	case []int64:
		if len(x) == 1 {
			return x[0]
		}
	case int64:
		return x
	}
	return -1
}

func (b objVec) app(v int64) error        { return b.Append(b.object(v)) }
func (b objVec) set(i int, v int64) error { return b.ModifyEntry(i, b.object(v)) }
func (b objVec) get(i int) (int64, error) {
	o, err := b.ObjectAt(i)
	if err != nil {
		return 0, err
	}
	return b.id(o), nil
}
func (b objVec) up(i int) (int64, error) { return 0, nil }
func (b objVec) lo(i int) (int64, error) { return 0, nil }
func (b objVec) exp() ([]int64, error)   { return nil, nil }
func (b objVec) size() int               { return b.GetSize() }
func (b objVec) setSize(n int)           { b.SetSize(n) }
func (b objVec) clear()                  { b.Clear() }
func (b objVec) halfs() bool             { return false }
func (b objVec) exports() bool           { return false }

func newVector(kind string, exp int) (vector, error) {
	switch kind {
	case "long":
		var opts []buffer.FastLongBufferOption
		if exp >= 0 {
			opts = append(opts, buffer.WithFastLongBufferPageSize(exp))
		}
		b, err := buffer.NewFastLongBuffer(opts...)
		return longVec{b}, err
	case "int":
		var opts []buffer.FastIntBufferOption
		if exp >= 0 {
			opts = append(opts, buffer.WithFastIntBufferPageSize(exp))
		}
		b, err := buffer.NewFastIntBuffer(opts...)
		return intVec{b}, err
	default:
		var opts []buffer.FastObjectBufferOption
		if exp >= 0 {
			opts = append(opts, buffer.WithFastObjectBufferPageSize(exp))
		}
		b, err := buffer.NewFastObjectBuffer(opts...)
		return objVec{b, map[interface{}]int64{}}, err
	}
}

// observe reads everything that can be read; len is the number of entries the
// history should have left (the caller of an object buffer counts them itself)
func observe(b vector, n int, page int) vecRes {
	r := vecRes{N: b.size(), Get: [][2]int64{}, Exp: [][2]int64{}, Up: []int64{}, Lo: []int64{}, Bad: []int{}}
	for _, i := range []int{n, n + 1, n + page - 1, n + page, n + 2*page, -1, -2, -page, math.MaxInt64, math.MinInt64, 1 << 31, 1 << 32, -1 << 31, math.MinInt64 + n} {
		_, err := b.get(i)
		r.Bad = append(r.Bad, code(err), code(b.set(i, 77)))
		if b.halfs() {
			_, err = b.up(i)
			r.Bad = append(r.Bad, code(err))
			_, err = b.lo(i)
			r.Bad = append(r.Bad, code(err))
		}
	}
	for i := 0; i < n; i++ {
		v, err := b.get(i)
		if err != nil {
			r.C = code(err)
			break
		}
		r.Get = append(r.Get, halves(v))
		if b.halfs() {
			v, err = b.up(i)
			if err != nil {
				r.C = code(err)
				break
			}
			r.Up = append(r.Up, v)
			v, err = b.lo(i)
			if err != nil {
				r.C = code(err)
				break
			}
			r.Lo = append(r.Lo, v)
		}
	}
	if b.exports() {
		a, err := b.exp()
		if err != nil {
			r.C = code(err)
		}
		for _, v := range a {
			r.Exp = append(r.Exp, halves(v))
		}
		// what is exported is a copy
		for i := range a {
			a[i] = -99
		}
	}
	return r
}

func runVec(raw json.RawMessage) interface{} {
	var q vecReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	b, err := newVector(q.Kind, q.Exp)
	if err != nil {
		return map[string]interface{}{"v": "new"}
	}
	page := 1024
	if q.Exp >= 0 {
		page = 1 << q.Exp
	}
	var out []vecRes
	n := 0
	step := func(op vecOp) (r vecRes, bad bool) {
		defer func() {
			if x := recover(); x != nil {
				r, bad = vecRes{C: panicked, Get: [][2]int64{}, Exp: [][2]int64{}, Up: []int64{}, Lo: []int64{}, Bad: []int{}}, true
				if e, ok := x.(error); ok {
					r.Msg = e.Error()
				}
			}
		}()
		r = vecRes{Get: [][2]int64{}, Exp: [][2]int64{}, Up: []int64{}, Lo: []int64{}, Bad: []int{}}
		switch op.O {
		case "app":
			r.C = code(b.app(whole(op.V[0], op.V[1])))
			n++
		case "appn":
			for k := 0; k < op.N && r.C == 0; k++ {
				r.C = code(b.app(whole(op.V[0], op.V[1]+int64(k))))
				n++
			}
		case "set":
			r.C = code(b.set(op.I.i(), whole(op.V[0], op.V[1])))
		case "size":
			b.setSize(op.N)
			if op.N < n {
				n = op.N
			}
		case "clear":
			b.clear()
			n = 0
		case "get":
			v, err := b.get(op.I.i())
			r.C = code(err)
			if err == nil {
				r.Get = append(r.Get, halves(v))
			}
		case "obs":
			r = observe(b, n, page)
		}
		return r, false
	}
	for _, op := range q.Ops {
		r, bad := step(op)
		out = append(out, r)
		if bad {
			break
		}
	}
	return map[string]interface{}{"v": "ok", "res": out}
}

// ---------------------------------------------------------------------------
// bytes

type byteReq struct {
	D   []int `json:"d"`
	Ops []struct {
		O string `json:"o"`
		I num    `json:"i"`
		L num    `json:"l"`
	} `json:"ops"`
}

type byteRes struct {
	C int   `json:"c"`
	B []int `json:"b"`
}

func runBytes(raw json.RawMessage) interface{} {
	var q byteReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	// bytes behind the document that must never be seen
	doc := append(toBytes(q.D), 0xEE, 0xEE, 0xEE, 0xEE)[:len(q.D)]
	b, err := buffer.NewUniByteBuffer(doc)
	if err != nil {
		return map[string]interface{}{"v": "new", "c": code(err)}
	}
	var out []byteRes
	one := func(o string, i, l int) (r byteRes) {
		r = byteRes{B: []int{}}
		defer func() {
			if x := recover(); x != nil {
				r = byteRes{C: panicked, B: []int{}}
			}
		}()
		switch o {
		case "at":
			v, err := b.ByteAt(i)
			r.C = code(err)
			if err == nil {
				r.B = []int{int(v)}
			}
		case "slice":
			s, err := b.GetByteSlice(i, l)
			r.C = code(err)
			if err == nil {
				r.B = toInts(s)
			}
		case "all":
			r.B = toInts(b.GetBytes())
		case "size":
			r.B = []int{b.GetSize()}
		case "setsize":
			b.SetSize(i)
		case "clear":
			b.Clear()
		}
		return r
	}
	for _, op := range q.Ops {
		out = append(out, one(op.O, op.I.i(), op.L.i()))
	}
	return map[string]interface{}{"v": "ok", "res": out}
}

// ---------------------------------------------------------------------------
// readers

type readReq struct {
	Kind string `json:"kind"`
	D    []int  `json:"d"`
	Off  num    `json:"off"`
	End  num    `json:"end"`
	Ops  []struct {
		O string `json:"o"`
		I num    `json:"i"`
		C uint32 `json:"c"`
		S []int  `json:"s"`
	} `json:"ops"`
}

type readRes struct {
	C int     `json:"c"`
	V []int64 `json:"v"`
}

func runReader(raw json.RawMessage) interface{} {
	var q readReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	var rd reader.Reader
	var err error
	doc := toBytes(q.D)
	doc = append(make([]byte, 0, len(doc)), doc...)
	if q.Kind == "utf8" {
		var x *reader.Utf8Reader
		x, err = reader.NewUtf8Reader(doc, q.Off.i(), q.End.i())
		rd = x
	} else {
		var x *reader.AsciiReader
		x, err = reader.NewAsciiReader(doc, q.Off.i(), q.End.i())
		rd = x
	}
	if err != nil {
		return map[string]interface{}{"v": "new", "c": code(err)}
	}
	var out []readRes
	one := func(k int) (r readRes) {
		op := q.Ops[k]
		r = readRes{V: []int64{}}
		defer func() {
			if x := recover(); x != nil {
				r = readRes{C: panicked, V: []int64{}}
			}
		}()
		switch op.O {
		case "get":
			c, err := rd.GetChar()
			r.C = code(err)
			if err == nil {
				r.V = []int64{int64(c)}
			}
		case "skip":
			if rd.SkipChar(op.C) {
				r.V = []int64{1}
			} else {
				r.V = []int64{0}
			}
		case "seq":
			var s []rune
			for _, c := range op.S {
				s = append(s, rune(c))
			}
			if rd.SkipCharSeq(string(s)) {
				r.V = []int64{1}
			} else {
				r.V = []int64{0}
			}
		case "at":
			c, err := rd.GetCharAt(int32(op.I.i()))
			r.C = code(err)
			if err == nil {
				r.V = []int64{int64(c)}
			}
		case "long":
			c, err := rd.GetLongCharAt(int32(op.I.i()))
			r.C = code(err)
			if err == nil {
				r.V = []int64{int64(c >> 32), int64(uint32(c))}
			}
		case "off":
			r.V = []int64{int64(rd.GetOffset())}
		case "set":
			rd.SetOffset(op.I.i())
		}
		return r
	}
	for k := range q.Ops {
		r := one(k)
		out = append(out, r)
		if r.C == panicked {
			break
		}
	}
	return map[string]interface{}{"v": "ok", "res": out}
}

// ---------------------------------------------------------------------------
// token records

type tokReq struct {
	W   [][2]int64 `json:"w"`
	Ns  bool       `json:"ns"`
	Idx []num      `json:"idx"`
}

func runTok(raw json.RawMessage) interface{} {
	var q tokReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	mk := func() *buffer.FastLongBuffer {
		b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(3))
		if err != nil {
			panic(err)
		}
		return b
	}
	vtd := mk()
	for _, w := range q.W {
		if err := vtd.Append(whole(w[0], w[1])); err != nil {
			return docObs{V: "harness", Msg: err.Error()}
		}
	}
	nav, err := navigation.NewVtdNav(1, 0, 1, 3, common.FormatUtf8, q.Ns, []byte("x"), vtd, mk(), mk(), mk())
	if err != nil {
		return map[string]interface{}{"v": "new", "c": code(err)}
	}
	get := func(f func(int) (int32, error), i int) (r [2]int64) {
		defer func() {
			if x := recover(); x != nil {
				r = [2]int64{panicked, 0}
			}
		}()
		v, err := f(i)
		if err != nil {
			return [2]int64{int64(code(err)), 0}
		}
		return [2]int64{0, int64(v)}
	}
	all := func(i int) [][2]int64 {
		return [][2]int64{get(nav.GetTokenType, i), get(nav.GetTokenDepth, i), get(nav.GetTokenOffset, i), get(nav.GetTokenLength, i)}
	}
	var in, out [][][2]int64
	for i := range q.W {
		in = append(in, all(i))
	}
	for _, x := range q.Idx {
		out = append(out, all(x.i()))
	}
	return map[string]interface{}{"v": "ok", "n": nav.GetVtdBufferSize(), "in": in, "out": out}
}

// ---------------------------------------------------------------------------
// constructors

type ctorReq struct {
	What string `json:"what"`
	Nil  bool   `json:"nil"`
	D    []int  `json:"d"`
	A    []num  `json:"a"`
	Enc  int    `json:"enc"`
}

func runCtor(raw json.RawMessage) (out interface{}) {
	var q ctorReq
	if err := json.Unmarshal(raw, &q); err != nil {
		return docObs{V: "harness", Msg: err.Error()}
	}
	defer func() {
		if x := recover(); x != nil {
			out = map[string]interface{}{"v": "ok", "c": panicked}
		}
	}()
	var doc []byte
	if !q.Nil {
		doc = toBytes(q.D)
	}
	arg := func(k int) int { return q.A[k].i() }
	var err error
	var res interface{}
	switch q.What {
	case "bytes":
		res, err = buffer.NewUniByteBuffer(doc)
	case "utf8":
		res, err = reader.NewUtf8Reader(doc, arg(0), arg(1))
	case "ascii":
		res, err = reader.NewAsciiReader(doc, arg(0), arg(1))
	case "long":
		var o []buffer.FastLongBufferOption
		for k := range q.A {
			o = append(o, buffer.WithFastLongBufferPageSize(arg(k)))
		}
		res, err = buffer.NewFastLongBuffer(o...)
	case "int":
		var o []buffer.FastIntBufferOption
		for k := range q.A {
			o = append(o, buffer.WithFastIntBufferPageSize(arg(k)))
		}
		res, err = buffer.NewFastIntBuffer(o...)
	case "obj":
		var o []buffer.FastObjectBufferOption
		for k := range q.A {
			o = append(o, buffer.WithFastObjectBufferPageSize(arg(k)))
		}
		res, err = buffer.NewFastObjectBuffer(o...)
	case "pilot", "modifier":
		var nav navigation.Nav
		if !q.Nil {
			req := docReq{D: q.D}
			p, _, err := newParser(&req)
			if err != nil {
				return docObs{V: "harness", Msg: err.Error()}
			}
			if err := p.Parse(); err != nil {
				return docObs{V: "harness", Msg: err.Error()}
			}
			n, err := p.GetNav()
			if err != nil {
				return docObs{V: "harness", Msg: err.Error()}
			}
			nav = n
		}
		if q.What == "pilot" {
			o := []pilot.Option{pilot.WithNavigation(nav)}
			for k := range q.A {
				o = append(o, pilot.WithCaching(arg(k) == 1))
			}
			res, err = pilot.NewAutoPilot(o...)
		} else {
			res, err = modifier.NewXmlModifier(modifier.WithNavigation(nav))
		}
	case "nav", "modenc":
		var b [4]buffer.LongBuffer
		for k := range b {
			if b[k], err = buffer.NewFastLongBuffer(); err != nil {
				return docObs{V: "harness", Msg: err.Error()}
			}
		}
		nav, e := navigation.NewVtdNav(0, 0, int32(len(doc)), 0, common.FormatEncoding(q.Enc), false, doc, b[0], b[1], b[2], b[3])
		if q.What == "nav" {
			res, err = nav, e
		} else if e != nil {
			return docObs{V: "harness", Msg: e.Error()}
		} else {
			res, err = modifier.NewXmlModifier(modifier.WithNavigation(nav))
		}
	default:
		return docObs{V: "harness", Msg: "unknown constructor"}
	}
	c := code(err)
	// a constructor returns a value or an error, not both
	if (err == nil) == isNil(res) {
		c = 8
	}
	return map[string]interface{}{"v": "ok", "c": c}
}

func init() {
	handlers["vec"] = runVec
	handlers["bytes"] = runBytes
	handlers["reader"] = runReader
	handlers["tok"] = runTok
	handlers["ctor"] = runCtor
}
