package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mailru/easyjson"
	"github.com/mailru/easyjson/jlexer"
	"github.com/mailru/easyjson/jwriter"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
)

func init() {
	props["J01"] = j01
	props["J02"] = j02
	props["J03"] = j03
}

// plain mirrors a search result without its generated methods: what the
// standard library makes of it is the reference.
type plain struct {
	Document struct {
		Name    string `json:"id"`
		Content string `json:"raw"`
	} `json:"doc"`
	Hits int `json:"hits"`
}

func toPlain(r visigoth.SearchResult) (p plain) {
	p.Document.Name, p.Document.Content, p.Hits = r.Document.Name, r.Document.Content, r.Hits
	return
}

func fromPlain(p plain) visigoth.SearchResult {
	return visigoth.SearchResult{Document: visigoth.NewDoc(p.Document.Name, p.Document.Content), Hits: p.Hits}
}

// slowReader hands out its bytes in small pieces.
type slowReader struct {
	b []byte
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(s.n, len(s.b), len(p))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func encoders() []struct {
	name string
	f    func(visigoth.SearchResult) ([]byte, error)
} {
	return []struct {
		name string
		f    func(visigoth.SearchResult) ([]byte, error)
	}{
		{"MarshalJSON", func(r visigoth.SearchResult) ([]byte, error) { return r.MarshalJSON() }},
		{"json.Marshal", func(r visigoth.SearchResult) ([]byte, error) { return json.Marshal(r) }},
		{"json.Marshal of a pointer", func(r visigoth.SearchResult) ([]byte, error) { return json.Marshal(&r) }},
		{"json.Encoder", func(r visigoth.SearchResult) ([]byte, error) {
			var b bytes.Buffer
			e := json.NewEncoder(&b)
			e.SetEscapeHTML(false)
			err := e.Encode(r)
			return b.Bytes(), err
		}},
		{"easyjson.Marshal", func(r visigoth.SearchResult) ([]byte, error) { return easyjson.Marshal(r) }},
		{"MarshalToWriter", func(r visigoth.SearchResult) ([]byte, error) {
			var b bytes.Buffer
			_, err := easyjson.MarshalToWriter(r, &b)
			return b.Bytes(), err
		}},
		{"MarshalEasyJSON", func(r visigoth.SearchResult) ([]byte, error) {
			w := jwriter.Writer{NoEscapeHTML: len(r.Document.Name)%2 == 0}
			r.MarshalEasyJSON(&w)
			return w.BuildBytes()
		}},
		{"in a list", func(r visigoth.SearchResult) ([]byte, error) {
			b, err := json.Marshal(visigoth.SearchResults{r, r})
			if err != nil {
				return nil, err
			}
			var l []json.RawMessage
			if err := json.Unmarshal(b, &l); err != nil {
				return nil, err
			}
			if len(l) != 2 || !bytes.Equal(l[0], l[1]) {
				return nil, fmt.Errorf("list of two results encodes as %s", b)
			}
			return l[1], nil
		}},
	}
}

func decoders() []struct {
	name string
	f    func([]byte, *visigoth.SearchResult) error
} {
	return []struct {
		name string
		f    func([]byte, *visigoth.SearchResult) error
	}{
		{"UnmarshalJSON", func(b []byte, r *visigoth.SearchResult) error { return r.UnmarshalJSON(b) }},
		{"json.Unmarshal", func(b []byte, r *visigoth.SearchResult) error { return json.Unmarshal(b, r) }},
		{"easyjson.Unmarshal", func(b []byte, r *visigoth.SearchResult) error { return easyjson.Unmarshal(b, r) }},
		{"UnmarshalFromReader", func(b []byte, r *visigoth.SearchResult) error {
			return easyjson.UnmarshalFromReader(&slowReader{append([]byte(nil), b...), 1 + len(b)/7}, r)
		}},
		{"UnmarshalEasyJSON", func(b []byte, r *visigoth.SearchResult) error {
			l := jlexer.Lexer{Data: b}
			r.UnmarshalEasyJSON(&l)
			l.Consumed()
			return l.Error()
		}},
		{"json.Decoder", func(b []byte, r *visigoth.SearchResult) error {
			d := json.NewDecoder(&slowReader{append([]byte(nil), b...), 1 + len(b)/5})
			if err := d.Decode(r); err != nil {
				return err
			}
			if _, err := d.Token(); err != io.EOF {
				return fmt.Errorf("data after the value")
			}
			return nil
		}},
	}
}

func ints(r *kit.Rand) int {
	switch r.IntN(6) {
	case 0:
		return Pick(r, []int{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1<<53 + 1, 255, 256, 65535, 65536, 127, 128, -128, -129})
	case 1:
		return int(r.Uint64())
	case 2:
		return -r.IntN(1000)
	case 3:
		return int(r.Int64() >> r.IntN(63))
	}
	return r.IntN(1000)
}

func jtext(r *kit.Rand) string {
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		c := r.IntN(0x110000)
		if c >= 0xd800 && c < 0xe000 {
			c = '?'
		}
		return string(rune(c))
	case 2: // every control character and the ones JSON or HTML treat apart
		var b strings.Builder
		for n := r.Size(1, 12); n > 0; n-- {
			b.WriteString(Pick(r, []string{"\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "<", ">", "&", "\u2028", "\u2029", "\ufffd", "\U0001f642", "\\u0041", "{", "}", "[", "]", ":", ",", "é", "\u0080", "\ufeff"}))
		}
		return b.String()
	case 3:
		return strings.Repeat(Pick(r, []string{"x", "\"", "\\", "é", "\n", "<", "日", "🙂"}), r.Size(1, 5000))
	case 4:
		var b strings.Builder
		for n := r.Size(0, 20); n > 0; n-- {
			b.WriteByte(byte(r.IntN(128)))
		}
		return b.String()
	}
	return r.Valid(r.Size(0, 12))
}

// render writes a string as JSON in one of the many ways.
func render(r *kit.Rand, s string, plainOnly bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		esc := !plainOnly && r.P(0.2)
		switch {
		case c == '"' || c == '\\' || c < 0x20:
			short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
			if short != "" && !(esc && r.P(0.5)) {
				b.WriteString(short)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		case c == '/' && esc:
			b.WriteString(`\/`)
		case esc && c < 0x10000:
			if r.P(0.5) {
				fmt.Fprintf(&b, `\u%04x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04X`, c)
			}
		case esc:
			c -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+c>>10, 0xdc00+c&0x3ff)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func ws(r *kit.Rand) string {
	if r.P(0.6) {
		return ""
	}
	return Pick(r, []string{" ", "\n", "\t", "\r", "  ", " \n\t ", strings.Repeat(" ", r.Size(1, 300))})
}

func anyValue(r *kit.Rand, depth int) string {
	switch x := r.IntN(9); {
	case x == 0:
		return "null"
	case x == 1:
		return "true"
	case x == 2:
		return "false"
	case x == 3:
		return strconv.Itoa(ints(r))
	case x == 4:
		return Pick(r, []string{"0.5", "-1.25e10", "1E+2", "3e-7", "0", "-0"})
	case x == 5 && depth > 0:
		var b strings.Builder
		b.WriteString("[" + ws(r))
		for n, i := r.Size(0, 6), 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + ws(r))
			}
			b.WriteString(anyValue(r, depth-1) + ws(r))
		}
		b.WriteString("]")
		return b.String()
	case x == 6 && depth > 0:
		var b strings.Builder
		b.WriteString("{" + ws(r))
		for n, i := r.Size(0, 6), 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + ws(r))
			}
			b.WriteString(render(r, Pick(r, []string{"doc", "hits", "id", "raw", "x", "é", "", "a b"}), false) + ws(r) + ":" + ws(r) + anyValue(r, depth-1) + ws(r))
		}
		b.WriteString("}")
		return b.String()
	case x == 7 && depth > 0:
		n := r.Size(1, 200)
		return strings.Repeat("[", n) + strings.Repeat("]", n)
	}
	return render(r, jtext(r), false)
}

func unknownKey(r *kit.Rand) string {
	for {
		k := Pick(r, []string{"x", "docs", "hit", "document", "", "idx", "ra", "rawx", "i", "d", "do", "\u0000", "ñ", "name", "content", "hits ", "doc\n", jtext(r)})
		if len(k) > 40 {
			continue
		}
		switch strings.ToLower(k) { // the standard library also takes other cases of a known key
		case "doc", "hits", "id", "raw":
			continue
		}
		fold := false
		for _, known := range []string{"doc", "hits", "id", "raw"} {
			fold = fold || strings.EqualFold(k, known)
		}
		if !fold {
			return k
		}
	}
}

// object renders members in random order with unknown ones mixed in.
func object(r *kit.Rand, members [][2]string) string {
	ms := append([][2]string{}, members...)
	for n := r.IntN(3); n > 0; n-- {
		ms = append(ms, [2]string{render(r, unknownKey(r), false), anyValue(r, 3)})
	}
	r.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
	var b strings.Builder
	b.WriteString("{" + ws(r))
	for i, m := range ms {
		if i > 0 {
			b.WriteString("," + ws(r))
		}
		b.WriteString(m[0] + ws(r) + ":" + ws(r) + m[1] + ws(r))
	}
	b.WriteString("}")
	return b.String()
}

// document renders an object a standard decoder accepts.
func document(r *kit.Rand) string {
	var ms [][2]string
	if r.P(0.9) {
		v := "null"
		if r.P(0.9) {
			var ds [][2]string
			for _, k := range []string{"id", "raw"} {
				if r.P(0.9) {
					v := "null"
					if r.P(0.9) {
						v = render(r, jtext(r), false)
					}
					ds = append(ds, [2]string{render(r, k, r.P(0.8)), v})
				}
			}
			v = object(r, ds)
		}
		ms = append(ms, [2]string{render(r, "doc", r.P(0.8)), v})
	}
	if r.P(0.9) {
		v := "null"
		if r.P(0.9) {
			v = strconv.Itoa(ints(r))
		}
		ms = append(ms, [2]string{render(r, "hits", r.P(0.8)), v})
	}
	return ws(r) + object(r, ms) + ws(r)
}

func j01(c *kit.Ctx) {
	encs, decs := encoders(), decoders()
	type kept struct {
		b    []byte
		was  string
		what string
	}
	var earlier [8]kept // encodings handed out earlier
	n := 0
	trip := func(res visigoth.SearchResult, pick int) {
		for i, e := range encs {
			if pick >= 0 && (i+pick)%3 != 0 {
				continue
			}
			b, err := e.f(res)
			wit := map[string]any{"name": kit.Clip(res.Document.Name), "content": kit.Clip(res.Document.Content), "hits": res.Hits, "encoding": clipn(string(b)), "by": e.name}
			for _, k := range earlier {
				if string(k.b) != k.was {
					c.Fail(map[string]any{"encoding": k.was, "by": k.what, "is now": clipn(string(k.b))}, "an encoding by %s changes when another result is encoded", k.what)
				}
			}
			n++
			earlier[n%len(earlier)] = kept{b, string(b), e.name}
			c.Eval(1)
			if err != nil {
				c.Fail(wit, "encoding by %s fails: %v", e.name, err)
			}
			if !json.Valid(b) || !utf8.Valid(b) {
				c.Fail(wit, "the encoding by %s is not valid JSON", e.name)
			}
			// exactly the fields, by the standard library
			var top map[string]json.RawMessage
			var doc map[string]json.RawMessage
			var id, raw string
			var hits json.Number
			ok := json.Unmarshal(b, &top) == nil && len(top) == 2 && json.Unmarshal(top["doc"], &doc) == nil && len(doc) == 2 &&
				json.Unmarshal(doc["id"], &id) == nil && json.Unmarshal(doc["raw"], &raw) == nil && json.Unmarshal(top["hits"], &hits) == nil
			if !ok || id != res.Document.Name || raw != res.Document.Content || hits.String() != strconv.Itoa(res.Hits) {
				c.Fail(wit, "the encoding by %s does not say what the result says", e.name)
			}
			for j, d := range decs {
				if pick >= 0 && (i+j+pick)%3 != 0 {
					continue
				}
				var back visigoth.SearchResult
				buf := append([]byte(nil), b...)
				err := d.f(buf, &back)
				c.Eval(1)
				if err != nil || back != res {
					wit["decoded by"] = d.name
					wit["decoded"] = show(flatten(results{back}))
					c.Fail(wit, "a result encoded by %s and decoded by %s comes back different (error %v)", e.name, d.name, err)
				}
			}
		}
	}
	// every code point, in both fields
	const block = 0x800
	c.Cases("every code point", 0, 0x110000/block, func(r *kit.Rand, i int) {
		for x := rune(i * block); x < rune((i+1)*block); x++ {
			if x >= 0xd800 && x < 0xe000 {
				continue
			}
			c.Op("code point %U", x)
			trip(visigoth.SearchResult{Document: visigoth.NewDoc(string(x), "a"+string(x)+"b"+string(x)), Hits: int(x)}, int(x))
		}
		c.Count("code points", block)
		c.Nontrivial(uint64(i))
	})
	c.Cases("round trips", 1_000_000, c.N(16000, 800000), func(r *kit.Rand, i int) {
		res := visigoth.SearchResult{Document: visigoth.NewDoc(jtext(r), jtext(r)), Hits: ints(r)}
		c.Op("round trip %s", kit.Clip(res.Document.Content))
		trip(res, -1)
		if c.WantSample() {
			b, _ := res.MarshalJSON()
			c.Sample(clipn(string(b)))
		}
		c.Nontrivial(kit.Hash(res.Document.Name, "|", res.Document.Content, res.Hits))
	})
	c.Cases("large texts", 1_500_000, c.N(160, 8000), func(r *kit.Rand, i int) {
		// of about a power of two, or a size in the code, from characters of any
		// length that begin anywhere
		n := 1<<(9+r.IntN(10)) + r.IntN(9) - 4
		if l := c.Dict.NewSizes(500, 1<<20); len(l) > 0 && i%2 == 0 {
			n = Pick(r, l)
		}
		unit := Pick(r, []string{"ñ", "日", "🙂", "é\"", "\\n\n", "<日>", "\u2028", "x", "a\x00b", jtext(r) + "ñ"})
		text := strings.Repeat("-", r.IntN(5)) + strings.Repeat(unit, n/len(unit)+2)
		if cut := n; r.P(0.7) { // exactly so long
			for cut < len(text) && !utf8.RuneStart(text[cut]) {
				cut++
			}
			text = text[:min(cut, len(text))]
		}
		res := visigoth.SearchResult{Document: visigoth.NewDoc("name", text), Hits: ints(r)}
		if r.P(0.3) {
			res.Document.Name, res.Document.Content = res.Document.Content, res.Document.Name
		}
		c.Op("round trip of %d bytes", len(text))
		trip(res, r.IntN(3))
		c.Max("bytes of one text", int64(len(text)))
		c.Nontrivial(kit.Hash("large", len(text), unit))
	})
	c.Cases("equivalent documents", 2_000_000, c.N(40000, 2000000), func(r *kit.Rand, i int) {
		text := document(r)
		var into plain
		if r.P(0.3) {
			into.Document.Name, into.Document.Content, into.Hits = "before", "before", 77
		}
		want := into
		c.Op("decode %s", kit.Clip(text))
		if err := json.Unmarshal([]byte(text), &want); err != nil {
			panic(fmt.Sprintf("generator made invalid JSON: %v: %s", err, text))
		}
		for _, d := range decs {
			got := fromPlain(into)
			err := d.f([]byte(text), &got)
			c.Eval(1)
			if err != nil || toPlain(got) != want {
				c.Fail(map[string]any{"json": clipn(text), "decoder": d.name, "got": show(flatten(results{got})), "want": show(flatten(results{fromPlain(want)}))}, "%s decodes a document otherwise than the standard library (error %v)", d.name, err)
			}
		}
		c.Nontrivial(kit.Hash(text))
	})
}

func j02(c *kit.Ctx) {
	decs := decoders()
	mustFail := func(text, why string) {
		for _, d := range decs {
			var got visigoth.SearchResult
			c.Op("decode by %s %s", d.name, kit.Clip(text))
			err := d.f([]byte(text), &got)
			c.Eval(1)
			if err == nil {
				c.Fail(map[string]any{"json": clipn(text), "decoder": d.name, "got": show(flatten(results{got}))}, "%s accepts input %s", d.name, why)
			}
		}
	}
	detached := func(b []byte) {
		for _, d := range decs {
			buf := append(make([]byte, 0, len(b)+8), b...)
			var got visigoth.SearchResult
			c.Op("decode by %s %s", d.name, kit.Clip(string(b)))
			err := d.f(buf, &got)
			keep := flatten(results{got})[0]
			for i := range buf[:cap(buf)] {
				buf[:cap(buf)][i] = 0xAA
			}
			c.Eval(1)
			if now := (flat{got.Document.Name, got.Document.Content, got.Hits}); now != keep {
				c.Fail(map[string]any{"json": clipn(string(b)), "decoder": d.name, "before": show([]flat{keep}), "after": show([]flat{now}), "decode error": fmt.Sprint(err)}, "a result decoded by %s changes with the input buffer", d.name)
			}
			if err == nil {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
		}
	}
	c.Cases("truncated", 0, c.N(4000, 160000), func(r *kit.Rand, i int) {
		t := strings.TrimSpace(document(r))
		if len(t) > 3000 {
			t = `{"doc":{"id":"x","raw":"y\u00e9"},"hits":12}`
		}
		step := 1 + len(t)/60
		for n := 1 + r.IntN(step); n < len(t); n += step {
			mustFail(t[:n], "cut short")
		}
		c.Nontrivial(kit.Hash(t))
	})
	c.Cases("trailing", 1_000_000, c.N(8000, 400000), func(r *kit.Rand, i int) {
		t := document(r)
		tail := Pick(r, []string{"x", "{}", "}", "]", "0", "null", "\"\"", ",", "\x00", "true", t, ":", "/", "\\", "-", "{", "[", "}}", ",{}", "é", "\xff", "e", "."})
		if r.P(0.3) {
			tail = strings.Repeat(" ", r.Size(1, 300)) + tail
		}
		mustFail(t+ws(r)+tail, "that continues after the closing brace")
		c.Nontrivial(kit.Hash(t, tail))
	})
	c.Cases("wrong types", 2_000_000, c.N(20000, 1000000), func(r *kit.Rand, i int) {
		bad := func(kinds ...string) string {
			for {
				v := map[string]func() string{
					"string": func() string { return render(r, jtext(r), false) },
					"number": func() string {
						return Pick(r, []string{"0", "1", "-1", "12345", "1.5", "1e3"})
					},
					"float": func() string {
						return Pick(r, []string{"1.5", "0.1", "-2.75", "3.14159", "1e400", "1.0e-5", "123456.789"})
					},
					"range": func() string {
						return Pick(r, []string{"9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-99999999999999999999999", new(big.Int).Lsh(big.NewInt(1), uint(64+r.IntN(900))).String()})
					},
					"bool":   func() string { return Pick(r, []string{"true", "false"}) },
					"array":  func() string { return Pick(r, []string{"[]", "[1]", `["x"]`, "[{}]", "[[]]"}) },
					"object": func() string { return Pick(r, []string{"{}", `{"id":"x"}`, `{"a":[1,2]}`}) },
				}[Pick(r, kinds)]()
				return v
			}
		}
		good := map[string]string{"id": `"x"`, "raw": `"y"`, "hits": "3"}
		key := Pick(r, []string{"doc", "id", "raw", "hits", "top"})
		doc := ""
		switch key {
		case "id", "raw":
			good[key] = bad("number", "bool", "array", "object")
		case "hits":
			good[key] = bad("string", "bool", "array", "object", "float", "range")
		case "doc":
			doc = bad("string", "number", "bool", "array")
		case "top":
			mustFail(ws(r)+bad("string", "number", "bool", "array")+ws(r), "that is not an object")
			return
		}
		if doc == "" {
			doc = object(r, [][2]string{{`"id"`, good["id"]}, {`"raw"`, good["raw"]}})
		}
		t := object(r, [][2]string{{`"doc"`, doc}, {`"hits"`, good["hits"]}})
		mustFail(t, "whose field "+key+" holds a value of the wrong type or out of range")
		c.Nontrivial(kit.Hash(t))
		if c.WantSample() && len(t) < 200 {
			c.Sample(t)
		}
	})
	c.Cases("hostile bytes", 3_000_000, c.N(120000, 6000000), func(r *kit.Rand, i int) {
		var b []byte
		switch r.IntN(6) {
		case 0:
			b = []byte(r.Bytes(r.Size(0, 30)))
		case 1: // soup of tokens
			for n := r.Size(0, 60); n > 0; n-- {
				b = append(b, Pick(r, []string{"{", "}", "[", "]", ":", ",", `"doc"`, `"hits"`, `"id"`, `"raw"`, "null", "nul", "true", "tru", "false", "f", "1", "-", "1e", "0x", `"`, `\`, `\u`, `\ud83d`, `"\ud83d\ude42"`, " ", "\n", "\xff", "\x00", "9999999999999999999", ".5", "//", "/*"})...)
			}
		case 2: // very deep
			n := r.Size(1, 5000)
			b = []byte(Pick(r, []string{"", `{"x":`, `{"doc":`, `{"hits":`}) + strings.Repeat(Pick(r, []string{"[", `{"a":`, `{"doc":`, `[{"id":`}), n))
			if r.P(0.5) {
				b = append(b, strings.Repeat("]", n)+"}"...)
			}
		default: // mutations of a real document
			b = []byte(document(r))
			for n := r.Size(1, 8); n > 0 && len(b) > 0; n-- {
				p := r.IntN(len(b))
				switch r.IntN(6) {
				case 0:
					b[p] ^= 1 << r.IntN(8)
				case 1:
					b[p] = byte(r.IntN(256))
				case 2:
					b = append(b[:p], b[p+1:]...)
				case 3:
					b = append(b[:p:p], append([]byte(Pick(r, []string{"{", "}", "\"", "\\", "\x00", ",", ":", "[", "\\u12", "null", "-", "\xc3"})), b[p:]...)...)
				case 4:
					q := p + r.IntN(len(b)-p)
					b = append(b[:p:p], append(append([]byte{}, b[p:q]...), b[p:]...)...)
				case 5:
					b = b[:p]
				}
			}
		}
		detached(b)
		c.Nontrivial(kit.Hash(string(b)))
	})
	c.Cases("bottomless", 5_000_000, 12, func(r *kit.Rand, i int) {
		// a decoder that needs stack for every level runs out of it here; the limit
		// is lowered so that memory does not run out before
		defer debug.SetMaxStack(debug.SetMaxStack(16 << 20))
		head := []string{"", `{"x":`, `{"doc":`, `{"hits":`, `{"doc":{"id":`, `{"doc":{"y":`}[i%6]
		b := []byte(head + strings.Repeat([]string{"[", `{"a":`}[i/6], 1_200_000))
		for _, d := range decs {
			var v visigoth.SearchResult
			c.Op("decode by %s %s and so on, 1200000 levels deep", d.name, clipn(string(b[:40])))
			c.Eval(1)
			if d.f(b, &v) == nil {
				c.Fail(map[string]any{"head": head}, "endless nesting is accepted by %s", d.name)
			}
			c.Tick()
		}
		c.Nontrivial(uint64(i))
	})
	c.Cases("detached", 4_000_000, c.N(20000, 1000000), func(r *kit.Rand, i int) {
		b := []byte(document(r))
		if r.P(0.5) { // nothing to unescape
			b = []byte(`{"doc":{"id":` + render(r, "name"+kit.Itoa(i), true) + `,"raw":` + render(r, strings.Repeat("x", r.Size(0, 600)), true) + `},"hits":` + kit.Itoa(i) + `}`)
		}
		detached(b)
		c.Nontrivial(kit.Hash(string(b)))
	})
}

func j03(c *kit.Ctx) {
	one := func(r *kit.Rand, docs, words int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), false)
		h.valid = true
		for i, v := range h.vocab {
			h.vocab[i] = strings.ToValidUTF8(v, "?")
		}
		for len(h.ref.Docs) < docs-3 {
			h.putRandom(r.IntN(words + 1))
		}
		for len(h.ref.Docs) < docs { // exactly so many
			t := strings.Join(h.vocab[:min(len(h.vocab), r.IntN(4))], " ")
			h.put("d"+kit.Itoa(len(h.ref.Docs)), t, t)
		}
		c.Op("save and load %d documents", docs)
		var b []byte
		var err error
		if r.P(0.3) {
			b, err = json.MarshalIndent(h.ix, "", " ")
		} else {
			b, err = json.Marshal(h.ix)
		}
		c.Eval(1)
		if err != nil {
			c.Fail(h.witness(), "marshalling an index fails: %v", err)
		}
		// the dump itself
		var dump struct {
			Indexed  []map[string]string `json:"indexed"`
			Inverted map[string][]int    `json:"inverted"`
		}
		if err := json.Unmarshal(b, &dump); err != nil {
			c.Fail(h.witness(clipn(string(b))), "the dump is not readable: %v", err)
		}
		if len(dump.Indexed) != len(h.ref.Docs) {
			c.Fail(h.witness(clipn(string(b))), "the dump lists %d documents of %d", len(dump.Indexed), len(h.ref.Docs))
		}
		want := map[string][]int{}
		for k, d := range h.ref.Docs {
			if g := dump.Indexed[k]; g["id"] != d.Name || g["raw"] != d.Content || len(g) != 2 {
				c.Fail(h.witness(), "the dump's document %d is %q, want id %q and raw %q", k, g, d.Name, d.Content)
			}
			for w := range d.Words {
				want[w] = append(want[w], k)
			}
		}
		for w, l := range dump.Inverted {
			if !reflect.DeepEqual(l, want[w]) {
				c.Fail(h.witness(), "the dump lists word %q at %v, want %v", w, l, want[w])
			}
		}
		for w, l := range want {
			if !reflect.DeepEqual(dump.Inverted[w], l) {
				c.Fail(h.witness(), "the dump lists word %q at %v, want %v", w, dump.Inverted[w], l)
			}
		}
		c.Eval(len(want) + len(h.ref.Docs))
		orig := h.ix
		load := func() *visigoth.MemoryIndex {
			m := visigoth.NewMemoryIndex("loaded", h.an.Make())
			own := append([]byte(nil), b...)
			var err error
			if r.P(0.3) {
				err = json.NewDecoder(&slowReader{own, 1 + len(b)/3}).Decode(m)
			} else {
				err = json.Unmarshal(own, m)
			}
			if err != nil {
				c.Fail(h.witness(clipn(string(b))), "loading a dump fails: %v", err)
			}
			for k := range own { // the buffer is the caller's
				own[k] = '7'
			}
			return m
		}
		loaded := load()
		other := load()
		// dumps are compared by what they say, not by their bytes
		redump := func(m *visigoth.MemoryIndex, what string) {
			type content struct {
				Indexed  []map[string]string `json:"indexed"`
				Inverted map[string][]int    `json:"inverted"`
			}
			var got content
			text, err := json.Marshal(m)
			if err == nil {
				err = json.Unmarshal(text, &got)
			}
			c.Eval(1)
			if err != nil {
				c.Fail(h.witness(), "%s: dumping it fails: %v", what, err)
			}
			ok := len(got.Indexed) == len(h.ref.Docs)
			want := map[string][]int{}
			for k, d := range h.ref.Docs {
				ok = ok && got.Indexed[k]["id"] == d.Name && got.Indexed[k]["raw"] == d.Content
				for w := range d.Words {
					want[w] = append(want[w], k)
				}
			}
			if !ok || len(want) != len(got.Inverted) || len(want) > 0 && !reflect.DeepEqual(want, got.Inverted) {
				c.Fail(h.witness(clipn(string(text))), "%s: its dump differs from its content", what)
			}
		}
		compare := func(m *visigoth.MemoryIndex, what string) {
			h.ix = m
			if r.P(0.5) {
				redump(m, what)
			}
			for k := 0; k < 6; k++ {
				q := h.query()
				for _, e := range engines {
					got := flatten(h.search(q, e.name, e.fn))
					c.Eval(1)
					if w := h.want(e.name, h.an.Ref(q)); !sameSeq(got, w) {
						c.Fail(h.witness("got ", show(got), "; want ", show(w)), "%s: %s search for %s answers wrongly", what, e.name, kit.Clip(q))
					}
				}
			}
		}
		compare(loaded, "index loaded from a dump")
		compare(orig, "index after being dumped")
		nb := len(h.ref.Docs)
		for j := r.Size(1, 10); j > 0; j-- {
			h.ix = loaded
			h.putRandom(1 + r.IntN(words))
			if r.P(0.5) {
				compare(loaded, "index loaded from a dump and written to")
			}
		}
		compare(loaded, "index loaded from a dump and written to")
		after := h.ref.Docs
		h.ref.Docs = h.ref.Docs[:nb:nb]
		compare(orig, "dumped index after writing to the loaded one")
		compare(other, "second index loaded from the same dump")
		// and the original goes on too
		h.ix = orig
		h.putRandom(1 + r.IntN(words))
		compare(orig, "dumped index written to")
		h.ref.Docs = after
		compare(loaded, "loaded index after writing to the dumped one")
		if c.WantSample() && docs > 0 && docs < 4 {
			c.Sample(clipn(string(b)))
		}
		c.Nontrivial(kit.Hash(string(b)))
	}
	c.Cases("indices", 0, c.N(3000, 120000), func(r *kit.Rand, i int) { one(r, r.Size(0, 40), 12) })
	c.Cases("large", 1_000_000, c.N(48, 2000), func(r *kit.Rand, i int) { one(r, r.Size(64, 1100), 12) })
	c.Cases("wide", 2_000_000, c.N(48, 2000), func(r *kit.Rand, i int) { one(r, r.Size(1, 8), 1100) })
	huge := append(c.Dict.NewSizes(40, 8000), 2048, 4097)
	c.Cases("huge", 3_000_000, len(huge), func(r *kit.Rand, i int) { one(r, huge[i], 4) })
}
