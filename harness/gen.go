package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// The document source of trace validation: random documents of a theme, most
// of them close to well-formed, many with an edit. What they should do is
// decided by the specification (XmlTrace.tla), not here.

type gen struct {
	*rand.Rand
	theme string
	b     strings.Builder
}

func (g *gen) pick(xs ...string) string { return xs[g.Intn(len(xs))] }
func (g *gen) p(percent int) bool       { return g.Intn(100) < percent }

var names = []string{"a", "b", "c", "ab", "a.b", "x-1", "_", "xml", "xmlns", "xm", "xmln", "é", "名", "a·", "𐀀b", "aa", "A"}
var qnames = []string{"p:a", "p:b", "q:a", "q:b", "pp:a", "xml:a", "xml:lang", "r:a", "p:é", "é:a", "xmlfoo:a", "xmlnsx:a"}
var badq = []string{":a", "a:", "a:b:c", "p:1", ":", "p::a", "xmlns:a", "p:-", "xmlns:xmlns"}

func (g *gen) name() string {
	switch g.theme {
	case "ns":
		if g.p(50) {
			return g.pick(qnames...)
		}
		if g.p(6) {
			return g.pick(badq...)
		}
		return g.pick("a", "b", "c")
	case "dup":
		return g.pick("a", "b", "p:e")
	}
	if g.p(70) {
		return g.pick("a", "b", "c", "ab")
	}
	if g.p(20) {
		return g.pick(qnames...)
	}
	if g.p(8) {
		return g.pick(badq...)
	}
	return g.pick(names...)
}

func (g *gen) ws() string { return g.pick(" ", " ", "\n", "\t", "\r\n", "  ", "\r", " \n ") }
func (g *gen) ows() string {
	if g.p(75) {
		return ""
	}
	return g.ws()
}

func (g *gen) ref() string {
	if g.p(75) {
		return g.pick("&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#xe9;", "&#x1F600;",
			"&#9;", "&#xD7FF;", "&#xE000;", "&#xFFFD;", "&#x10FFFF;", "&#0065;", "&#x000041;", "&#1;", "&#1114111;", "&#xABCDEF;"[:7]+";")
	}
	return g.pick("&", "&;", "&a;", "&am;", "&amp", "&ampx;", "&lt", "&ltt;", "&gt ;", "&apo;", "&quo;", "&quott;", "&nbsp;", "&#;", "&#x;",
		"&#0;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&#x110000;", "&#1114112;", "&#4294967361;", "&#x100000041;", "&#18446744073709551681;",
		"&#x10000000000000041;", "&#a;", "&#xg;", "&#65", "&#x41", "&#-65;", "&#+65;", "&#6 5;", "&LT;", "&Amp;", "&#X41;", "& amp;", "&&amp;", "&#57343;", "&#55296;", "&#65534;")
}

func (g *gen) chars() string {
	if g.theme == "ref" && g.p(50) {
		return g.ref()
	}
	if g.theme == "delim" && g.p(60) {
		return g.pick("]", "]]", "]>", "]]]", ">", "-", "--", "?", "?>", "->", "-->", "]]&gt;", "a]", "]b", "?]", "-]", "]&gt;", "]]x>", "? >", "]]>")
	}
	if g.theme == "utf8" && g.p(60) {
		if g.p(85) {
			return g.pick("é", "ÿ", "\u07ff", "\u0800", "名", "\ufffd", "\ue000", "\ud7ff", "𐀀", "\U0010ffff", "\u0085", "\u2028", "\u00a0", "\ufeff", "\x7f", "\x01", "\x1f")
		}
		return g.pick("\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
			"\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xfe", "\xc3", "\xe5\x90", "\xf0\x90\x80", "\x00", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xc3(", "\xe5\x90(")
	}
	switch g.Intn(14) {
	case 0:
		return g.ref()
	case 1:
		return g.pick("]", "]]", "]>", ">", "]x", "]]x")
	case 2:
		return g.pick("é", "名", "𐀀", "\u0085", "\x7f", "\ufffd")
	case 3:
		return g.ws()
	case 4:
		return g.pick("\"", "'", "=", "/", "?", "!", "-", "--", "-->", "/>", "?>", ";", ":")
	default:
		return g.pick("x", "text", "1", " a ", "t\nu", "xyz")
	}
}

func (g *gen) text(max int) string {
	var b strings.Builder
	for i := g.Intn(max + 1); i > 0; i-- {
		b.WriteString(g.chars())
	}
	return b.String()
}

var urls = []string{"u", "v", "u:1", "u&amp;", "u&#38;", "u&#x26;", "v&apos;", "v&#39;", "&#117;", "u&lt;", "u&gt;", "u&quot;", "u&#34;", "uu", "é", "&#xe9;", "u&#x75;", "&#x75;u",
	"http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/2000/xmlns/x",
	"http://www.w3.org/2000/xmlns", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/XML/1998/namespac&#101;", "http&#x3a;//www.w3.org/2000/xmlns/", ""}

func (g *gen) attrs() {
	n := g.Intn(3)
	if g.theme == "attr" || g.theme == "ns" || g.theme == "dup" {
		n = g.Intn(6)
	}
	if g.theme == "attr" && g.p(3) {
		n = 250 + g.Intn(20)
		for i := 0; i < n; i++ {
			g.b.WriteString(fmt.Sprintf(" a%d='%d'", i, i))
		}
		if g.p(40) {
			g.b.WriteString(fmt.Sprintf(" a%d=''", g.Intn(n+5)))
		}
		return
	}
	for i := 0; i < n; i++ {
		if g.p(97) {
			g.b.WriteString(g.ws())
		}
		nm := g.name()
		val := ""
		switch {
		case (g.theme == "ns" && g.p(40)) || (g.theme == "dup" && g.p(45)):
			nm = g.pick("xmlns", "xmlns:p", "xmlns:q", "xmlns:pp", "xmlns:p", "xmlns:q", "xmlns:r", "xmlns:xml", "xmlns:é")
			k := len(urls)
			if g.theme == "dup" {
				nm = g.pick("xmlns:p", "xmlns:q", "xmlns:r", "xmlns:pp")
				k = 18
			} else if g.p(60) {
				k = 10
			}
			val = urls[g.Intn(k)]
			if nm == "xmlns:xml" && g.p(60) {
				val = urls[18]
			}
		case g.theme == "dup":
			nm = g.pick("p:a", "q:a", "r:a", "pp:a", "a", "p:b", "q:b", "pp:aa", "b", "xml:a")
		case g.p(6):
			nm = g.pick("xmlns", "xmlns:p", "xml:a", "xmlnsx", "xmlns:", "xmln", "xmlns.a")
		}
		g.b.WriteString(nm)
		if g.p(97) {
			g.b.WriteString(g.ows() + "=" + g.ows())
		} else {
			g.b.WriteString(g.pick("", " ", "==", " x=", ":="))
		}
		q := g.pick("'", "\"")
		if val == "" && !strings.HasPrefix(nm, "xmlns") {
			val = g.text(2)
			if g.p(95) {
				val = strings.NewReplacer("<", "", q, "").Replace(val)
			}
		}
		if g.p(98) {
			g.b.WriteString(q + val + q)
		} else {
			g.b.WriteString(g.pick(q+val, val, val+q, q+val+"<"+q))
		}
	}
	if g.p(15) {
		g.b.WriteString(g.ws())
	}
}

func (g *gen) misc(prolog bool) {
	switch g.Intn(4) {
	case 0:
		g.b.WriteString("<!--" + g.commentText() + "-->")
	case 1:
		g.pi()
	default:
		g.b.WriteString(g.ws())
	}
}

func (g *gen) commentText() string {
	t := g.text(3)
	if g.p(95) {
		for strings.Contains(t, "--") {
			t = strings.ReplaceAll(t, "--", "-")
		}
		t = strings.TrimSuffix(t, "-")
	}
	return t
}

func (g *gen) pi() {
	t := g.pick("p", "pi", "x", "xm", "xmlx", "xml-s", "XMLx", "p:q", "é", "xml.", "mlx")
	if g.p(5) {
		t = g.pick("xml", "XML", "Xml", "1", "", "-p", "xML")
	}
	g.b.WriteString("<?" + t)
	if g.p(60) {
		v := g.text(3)
		if g.p(95) {
			v = strings.ReplaceAll(v, "?>", "?")
		}
		g.b.WriteString(g.ws() + v)
	}
	g.b.WriteString("?>")
}

func (g *gen) element(depth int) {
	nm := g.name()
	g.b.WriteString("<" + nm)
	g.attrs()
	if g.p(25) {
		g.b.WriteString("/>")
		return
	}
	g.b.WriteString(">")
	k := g.Intn(4)
	for i := 0; i < k; i++ {
		switch g.Intn(8) {
		case 0, 1, 2:
			if depth > 0 {
				g.element(depth - 1)
			}
		case 3:
			t := g.text(3)
			if g.p(95) {
				t = strings.ReplaceAll(t, "]]>", "")
			}
			g.b.WriteString(t)
		case 4:
			t := g.text(3)
			t = strings.ReplaceAll(t, "]]>", "]]")
			g.b.WriteString("<![CDATA[" + t + "]]>")
		case 5:
			g.misc(false)
		case 6:
			g.b.WriteString(g.ws())
		default:
			g.b.WriteString(g.text(1))
		}
	}
	if g.p(98) {
		g.b.WriteString("</" + nm + g.ows() + ">")
	} else {
		g.b.WriteString("</" + g.name() + ">")
	}
}

func (g *gen) decl() {
	q := func(s string) string {
		a := g.pick("'", "\"")
		b := a
		if g.p(3) {
			b = g.pick("'", "\"", "")
		}
		return g.ows() + "=" + g.ows() + a + s + b
	}
	d := "<?xml"
	if g.p(2) {
		d = g.pick("<?XML", "<?xmL", "<?Xml", "<? xml", "<?xm")
	}
	g.b.WriteString(d + g.ws())
	parts := []string{"version" + q(g.pick("1.0", "1.0", "1.0", "1.1", "1.2", "2.0", "1.", "1", "1.10"))}
	if g.p(70) {
		enc := g.pick("UTF-8", "utf-8", "Utf-8", "ascii", "ASCII", "us-ascii", "US-ASCII", "Us-Ascii", "aScIi")
		if g.p(18) {
			enc = g.pick("utf-16", "UTF-16LE", "utf-16be", "iso-8859-1", "ISO-8859-15", "windows-1252", "WINDOWS-1250", "cp1252", "CP1250", "utf-7", "utf8", "latin1", "", "utf-88", "asci", "asciii", "us_ascii", "u", "usascii", "ebcdic", "windows-125", "iso-8859-", "cp125", "UTF-8 ", " UTF-8")
		}
		parts = append(parts, "encoding"+q(enc))
	}
	if g.p(40) {
		parts = append(parts, "standalone"+q(g.pick("yes", "no", "yes", "no", "YES", "maybe", "")))
	}
	if g.p(5) {
		g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	if g.p(3) {
		parts = append(parts, parts[g.Intn(len(parts))])
	}
	for i, x := range parts {
		if i > 0 && g.p(96) {
			g.b.WriteString(g.ws())
		}
		g.b.WriteString(x)
	}
	g.b.WriteString(g.ows() + g.pick("?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", "? >", ">"))
}

func (g *gen) doctype() {
	g.b.WriteString(g.pick("<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a ANY>]>", "<!DOCTYPE a SYSTEM \"x\">", "<!DOCTYPE a []>", "<!DOCTYPE\na PUBLIC 'p' 'u' >",
		"<!DOCTYPE a [<!ENTITY e 'x'> <!ATTLIST a b CDATA #IMPLIED>]>", "<!DOCTYPE é [<!ELEMENT a (b|c)*>\n<!NOTATION n SYSTEM 'x'>]>"))
	if g.p(5) {
		g.b.WriteString(g.pick("<!DOCTYPE>", "<!DOCTYPE >", "<!DOCTYPEa>", "<!DOCTYPE a", "<!doctype a>", "<!DOCTYPE 1>", "<!DOCTYPE a [<!ELEMENT a ANY]>", "<!DOCTYPE a [<>>]>", "<!DOCTYP a>"))
	}
}

func (g *gen) document() []byte {
	g.b.Reset()
	if g.theme == "bytes" {
		n := g.Intn(60)
		b := make([]byte, n)
		for i := range b {
			switch g.Intn(3) {
			case 0:
				b[i] = byte(g.Intn(256))
			default:
				const s = "<<<>>>/!?-[]=\"' abxml:&#;\n"
				b[i] = s[g.Intn(len(s))]
			}
		}
		if g.p(50) {
			b = append([]byte("<"), b...)
		}
		return b
	}
	if (g.theme == "decl" && g.p(30)) || g.p(3) {
		g.b.WriteString("\ufeff")
	}
	if (g.theme == "decl" && g.p(90)) || g.p(30) {
		g.decl()
	} else if g.p(8) {
		g.b.WriteString(g.ws())
	}
	for g.p(25) {
		g.misc(true)
	}
	if g.p(15) {
		g.doctype()
		for g.p(25) {
			g.misc(true)
		}
	}
	depth := 2 + g.Intn(2)
	if g.theme == "decl" {
		depth = 0
	}
	if g.theme == "deep" {
		depth = 3 + g.Intn(6)
	}
	g.element(depth)
	for g.p(30) {
		g.misc(true)
	}
	if g.p(2) {
		g.b.WriteString(g.pick("<a/>", "x", "&lt;", "<![CDATA[x]]>", "</a>", "<!DOCTYPE a>", "<", "]", "]]>"))
	}
	d := []byte(g.b.String())
	return d
}

var frags = []string{"<", ">", "/", "=", "'", "\"", "&", ";", "]]>", "-->", "?>", "<!--", "<?", "<![CDATA[", "</", "/>", " ", "\n", "a", ":", "]", "-", "--", "?", "!", "x", "xmlns", "&#", "&amp;",
	"\x00", "\xff", "\xc3", "é", "<a>", "</a>", "<a/>", "<!DOCTYPE a>", "<!", "<!D", "<![", "xml", "<?xml version='1.0'?>", "\ufeff", "&#x", "0", "\x0b"}

func (g *gen) mutate(d []byte) []byte {
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(d) == 0 {
			return []byte("<")
		}
		i := g.Intn(len(d))
		j := i + 1 + g.Intn(4)
		if j > len(d) {
			j = len(d)
		}
		switch g.Intn(8) {
		case 0:
			d = append(append([]byte{}, d[:i]...), d[j:]...)
		case 1:
			d = append(append(append([]byte{}, d[:i]...), frags[g.Intn(len(frags))]...), d[i:]...)
		case 2:
			d = append(append(append([]byte{}, d[:i]...), frags[g.Intn(len(frags))]...), d[j:]...)
		case 3:
			d = append(append(append([]byte{}, d[:j]...), d[i:j]...), d[j:]...)
		case 4:
			d = append([]byte{}, d[:i]...)
		case 5:
			d = append([]byte{}, d...)
			k := g.Intn(len(d))
			d[i], d[k] = d[k], d[i]
		case 6:
			d = append([]byte{}, d...)
			d[i] = byte(g.Intn(256))
		default:
			d = append(append([]byte{}, d[:i]...), d[i+1:]...)
		}
	}
	return d
}

func generate() {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	theme := fs.String("theme", "core", "")
	n := fs.Int("n", 100, "")
	seed := fs.Int64("seed", 1, "")
	mut := fs.Int("mut", 50, "percentage of edited documents")
	nsp := fs.Int("ns", 50, "percentage of namespace aware parses")
	win := fs.Int("win", 0, "percentage of documents parsed in a window")
	fs.Parse(os.Args[2:])
	g := &gen{Rand: rand.New(rand.NewSource(*seed)), theme: *theme}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	enc := json.NewEncoder(w)
	for i := 0; i < *n; i++ {
		d := g.document()
		if g.p(*mut) {
			d = g.mutate(d)
		}
		if len(d) == 0 {
			d = []byte("<")
		}
		r := map[string]interface{}{"op": "doc", "d": toInts(d), "ns": g.p(*nsp), "lc": 3 + 2*g.Intn(2), "tok": true, "base": 0}
		if g.p(*win) {
			pre := []byte(g.pick("", "<", "x", "<a>", "\xef\xbb\xbf", "<?xml version='1.0'?>", "<!--", "\n\n"))
			post := []byte(g.pick("", ">", "/>", "</a>", "<a/>", "-->", "]]>", ";", "x", "'>", "\n", "\x80\x80", "?>", "\"/>"))
			if g.p(40) && len(d) > 2 {
				k := 1 + g.Intn(len(d)-1)
				post = append(append([]byte{}, d[k:]...), post...)
				d = d[:k]
			}
			r["d"], r["pre"], r["post"], r["base"], r["win"] = toInts(d), toInts(pre), toInts(post), len(pre), true
		}
		enc.Encode(r)
	}
}
