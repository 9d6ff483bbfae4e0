package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
)

type results = slices.Slice[visigoth.SearchResult]

// engines that are not user-supplied.
var engines = []struct {
	name string
	fn   visigoth.Engine
}{
	{"hits", visigoth.HitsSearch},
	{"linear", visigoth.LinearSearch},
	{"all", visigoth.NoopAllSearch},
	{"zero", visigoth.NoopZeroSearch},
}

// hist is one index under test next to its sequential model.
type hist struct {
	c     *kit.Ctx
	r     *kit.Rand
	an    kit.Analyzer
	tok   kit.Tokenizer
	ix    *visigoth.MemoryIndex
	last  *visigoth.MemoryIndex // where the last put went
	chain visigoth.Index        // what it returned, which is the same index
	repo  *visigoth.IndexRepo   // when set, the index lives in it under name
	name  string
	ref   *kit.RefIndex
	vocab []string
	uniq  int
	valid bool // texts must be valid UTF-8
	log   []string
	texts []string // statements put
}

func newHist(c *kit.Ctx, r *kit.Rand, an kit.Analyzer, viaRepo bool) *hist {
	h := &hist{c: c, r: r, an: an, tok: an.Make(), ref: &kit.RefIndex{Ref: an.Ref}}
	if viaRepo {
		h.name = r.Name(3)
		h.repo = visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(h.tok))
	} else {
		h.ix = visigoth.NewMemoryIndex(r.Name(3), h.tok)
	}
	h.vocab = r.Vocab(1 + r.Size(1, 60))
	if r.P(0.3) { // words whose concatenations collide
		h.vocab = append(h.vocab, "a", "b", "c", "ab", "bc", "abc", "aa", "aab", "ba")
	}
	if an.SpacesOnly && r.P(0.5) {
		h.vocab = append(h.vocab, "a,b", "c++", "-", "x\x00y", "\"q\"", "a|b", "|", "\x01", "a\xffb")
	}
	if an.SpacesOnly && r.P(0.5) { // words that contain others and some sign
		sign := Pick(r, []string{"*", "?", "~", "+", "-", "!", "^", "$", "#", ":", ".", "%", "&", "/", "=", "@"})
		if w := r.D.Words(); r.P(0.5) && len(w) > 0 {
			if x := Pick(r, w); len(strings.Fields("a"+x+"a")) == 1 && utf8.ValidString(x) && !strings.Contains(x, ",") {
				sign = x
			}
		}
		w := Pick(r, h.vocab)
		h.vocab = append(h.vocab, w+sign, sign+w, w+sign+w, w+sign+"2", sign)
	}
	h.logf("analyzer=%s repo=%v name=%q", an.Name, viaRepo, h.name)
	return h
}

func (h *hist) logf(f string, a ...any) {
	if len(h.log) < 400 {
		h.log = append(h.log, fmt.Sprintf(f, a...))
	}
}

func (h *hist) witness(extra ...any) any {
	return map[string]any{"history": h.log, "detail": fmt.Sprint(extra...)}
}

func (h *hist) put(name, content, statement string) {
	h.logf("put %s content=%s statement=%s", kit.Clip(name), kit.Clip(content), kit.Clip(statement))
	h.c.Op("put %s %s", kit.Clip(name), kit.Clip(statement))
	req := kit.Req(h.r, name, content, statement)
	if h.repo != nil {
		h.repo.Put(h.name, req)
	} else if h.last == h.ix && h.r.P(0.2) {
		h.chain = h.chain.Put(req)
	} else {
		h.last, h.chain = h.ix, h.ix.Put(req)
	}
	h.ref.Put(name, content, statement)
	h.texts = append(h.texts, statement)
	h.c.Count("puts", 1)
}

// putRandom stores a document of about n words.
func (h *hist) putRandom(n int) {
	r := h.r
	text := r.Text(h.vocab, n, h.an.SpacesOnly)
	if !h.an.SpacesOnly && r.P(0.05) {
		text = r.Bytes(n + 1)
	}
	text = h.commas(text)
	if h.valid {
		text = strings.ToValidUTF8(text, "?")
	}
	h.uniq++
	u := "u" + kit.Itoa(h.uniq)
	name := r.Name(1 + r.IntN(30))
	if r.P(0.3) {
		name = u
	}
	if h.valid {
		name = strings.ToValidUTF8(name, "?")
	}
	switch r.IntN(10) {
	case 0, 1, 2: // statement apart from the content
		content := "content " + u
		if r.P(0.5) {
			content += " " + r.Text(h.vocab, 3, false)
		}
		h.put(name, content, text)
	case 3: // an exact duplicate
		h.put(name, text, text)
		if r.P(0.5) {
			h.put(name, text, text)
		}
	case 4:
		h.put(name, text, "")
	default:
		text += " " + u
		h.put(name, text, text)
	}
}

// length draws how many words a document has: mostly few, now and then many,
// so that words come again far apart.
func (h *hist) length(few int) int {
	r := h.r
	switch x := r.IntN(100); {
	case x < 80:
		return 1 + r.IntN(few)
	case x < 97:
		return r.Size(1, 90)
	}
	return r.Size(1, 700)
}

// commas puts commas in place of most spaces when they separate words.
func (h *hist) commas(text string) string {
	if !h.an.Commas {
		return text
	}
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		switch {
		case text[i] != ' ' || h.r.P(0.04):
			b.WriteByte(text[i])
		case h.r.P(0.08):
			b.WriteString(", ")
		case h.r.P(0.04):
			b.WriteString(",,")
		default:
			b.WriteByte(',')
		}
	}
	return b.String()
}

// query draws query text.
func (h *hist) query() string { return h.commas(h.rawQuery()) }

func (h *hist) rawQuery() string {
	r := h.r
	switch x := r.IntN(24); {
	case x == 0:
		return ""
	case x == 1:
		return Pick(r, []string{" ", "\n\t", ", .", "¡!", "--", "()", "…"})
	case x == 2:
		return r.Bytes(6)
	case x == 3:
		return "absent"
	case x == 4:
		return r.Text(h.vocab, r.Size(1, 5), h.an.SpacesOnly) + " absent"
	case x == 5:
		return "absent " + r.Text(h.vocab, r.Size(1, 3), h.an.SpacesOnly)
	case x < 13 && len(h.texts) > 0: // words of one document
		ws := h.an.Ref(h.texts[r.IntN(len(h.texts))])
		if len(ws) == 0 {
			return ""
		}
		raw := strings.Fields(h.texts[r.IntN(len(h.texts))])
		if r.P(0.5) || len(raw) == 0 {
			return Pick(r, h.texts)
		}
		n := r.Size(1, min(len(raw), 300))
		out := make([]string, n)
		for i := range out {
			out[i] = Pick(r, raw)
		}
		return strings.Join(out, " ")
	case x == 13: // the same word again and again
		return strings.TrimSpace(strings.Repeat(Pick(r, h.vocab)+" ", r.Size(2, 300)))
	case x == 14: // many words
		return r.Text(h.vocab, r.Size(1, 400), h.an.SpacesOnly)
	case x < 19:
		return Pick(r, h.vocab)
	case x == 19 && len(h.ref.Docs) > 0: // a document's name or content
		d := h.ref.Docs[r.IntN(len(h.ref.Docs))]
		if r.P(0.5) {
			return d.Name
		}
		return d.Content
	case x == 20:
		return r.Case(Pick(r, h.vocab))
	default:
		return r.Text(h.vocab, r.Size(1, 5), h.an.SpacesOnly)
	}
}

// Pick is kit.Pick.
func Pick[T any](r *kit.Rand, xs []T) T { return kit.Pick(r, xs) }

func (h *hist) search(q string, name string, fn visigoth.Engine) results {
	h.logf("search %s %s", name, kit.Clip(q))
	h.c.Op("search %s %s in %d documents", name, kit.Clip(q), len(h.ref.Docs))
	h.c.Count("searches:"+name, 1)
	if h.repo == nil {
		return h.ix.Search(q, fn)
	}
	st, err := h.repo.Search(h.name, q, fn)
	if err != nil {
		if len(h.ref.Docs) == 0 {
			return nil
		}
		h.c.Fail(h.witness(), "searching an existing index fails: %v", err)
	}
	var out results
	for st.Next() {
		out = append(out, st.Data())
	}
	if st.Err() != nil {
		h.c.Fail(h.witness(), "stream of an existing index fails: %v", st.Err())
	}
	return out
}

type flat struct {
	Name, Content string
	Hits          int
}

func flatten(rs results) []flat {
	out := make([]flat, len(rs))
	for i, r := range rs {
		out[i] = flat{strings.Clone(r.Document.Name), strings.Clone(r.Document.Content), r.Hits}
	}
	return out
}

func show(fs []flat) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d results:", len(fs))
	for i, f := range fs {
		if i >= 20 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " {%s %s hits=%d}", kit.Clip(f.Name), kit.Clip(f.Content), f.Hits)
	}
	return b.String()
}

// want gives the expected results.
func (h *hist) want(engine string, words []string) []flat {
	var out []flat
	switch engine {
	case "all":
		for _, d := range h.ref.Docs {
			out = append(out, flat{d.Name, d.Content, 0})
		}
	case "zero":
	default:
		n := len(words)
		if engine == "hits" {
			n = len(kit.Uniq(words))
		}
		for _, i := range h.ref.Match(words) {
			d := h.ref.Docs[i]
			out = append(out, flat{d.Name, d.Content, n})
		}
	}
	return out
}

func docKey(f flat) string { return fmt.Sprintf("%d:%s%s", len(f.Name), f.Name, f.Content) }

// sameDocs compares as multisets of documents.
func sameDocs(a, b []flat) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, x := range a {
		m[docKey(x)]++
	}
	for _, x := range b {
		m[docKey(x)]--
	}
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return true
}

func sameDocSeq(a, b []flat) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Content != b[i].Content {
			return false
		}
	}
	return true
}

func sameSeq(a, b []flat) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// histories drives index histories and calls check for each query. Queries are
// interleaved with puts.
func histories(c *kit.Ctx, quick, thorough int, check func(h *hist, q string)) {
	run := func(h *hist, docs, queries, words int) {
		h.c.Max("documents", int64(docs))
		every := 1
		if queries > 0 {
			every = docs/queries + 1
		}
		for i := 0; i < docs; i++ {
			n := 0
			if h.r.P(0.9) {
				n = h.length(words)
			}
			h.putRandom(n)
			if i%every == 0 {
				check(h, h.query())
			}
		}
		for i := 0; i < 6; i++ {
			check(h, h.query())
		}
		if c.WantSample() && docs > 3 && docs < 40 {
			c.Sample(h.log)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.log, "\n")))
	}
	base := 0
	c.Cases("histories", base, c.N(quick, thorough), func(r *kit.Rand, i int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.25))
		docs := r.Size(0, 140)
		run(h, docs, 30, 1+r.Size(1, 24))
	})
	base += 1_000_000
	c.Cases("large", base, c.N(quick/12+1, thorough/12+1), func(r *kit.Rand, i int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.25))
		h.vocab = r.Vocab(r.Size(100, 1100))
		run(h, r.Size(200, 4200), 40, 12)
	})
	base += 1_000_000
	c.Cases("wide", base, c.N(quick/12+1, thorough/12+1), func(r *kit.Rand, i int) {
		// documents and queries of very many words
		h := newHist(c, r, Pick(r, kit.Analyzers), false)
		h.vocab = nil
		n := r.Size(100, 1100)
		for i := 0; i < n; i++ {
			h.vocab = append(h.vocab, "k"+kit.Itoa(i))
		}
		wide := func(n int) string {
			p := r.Perm(len(h.vocab))
			ws := make([]string, 0, n)
			for i := 0; i < n; i++ {
				ws = append(ws, h.vocab[p[i%len(p)]])
			}
			return strings.Join(ws, " ")
		}
		for i := 0; i < 12; i++ {
			t := wide(r.Size(1, 2*n))
			if r.P(0.3) {
				t = strings.Join(h.vocab, " ")
			}
			h.put("d"+kit.Itoa(i%5), t, t)
		}
		for i := 0; i < 12; i++ {
			q := wide(r.Size(1, n))
			if r.P(0.3) {
				q = strings.Join(h.vocab, " ")
			} else if r.P(0.3) {
				q = h.texts[r.IntN(len(h.texts))]
			}
			check(h, q)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.texts, "\n")))
	})
	base += 1_000_000
	huge := c.Dict.NewSizes(4200, 120_000)
	huge = append(huge, 66_000)
	c.Cases("huge", base, len(huge), func(r *kit.Rand, i int) {
		// positions beyond 16 bits, and sizes around the code's own constants
		h := newHist(c, r, kit.Analyzers[0], false)
		n := huge[i]
		text := func(j int) string {
			t := "r" + kit.Itoa(j/7) + " s" + kit.Itoa(j%5003) + " t" + kit.Itoa(j)
			if j%8 == 3 {
				t += " often"
			}
			if n-1-j < 5 || j < 5 { // far apart
				t += " far e" + kit.Itoa(min(j, n-1-j))
			}
			if j%65536 < 3 { // at distances that are 0 in 16 bits
				t += " apart b" + kit.Itoa(j%65536)
			}
			return t
		}
		for j := 0; j < n; j++ {
			h.ix.Put(visigoth.NewDocRequest("d"+kit.Itoa(j%977), text(j)))
			c.Tick()
		}
		for j := 0; j < n; j++ {
			h.ref.Put("d"+kit.Itoa(j%977), text(j), text(j))
		}
		h.logf("%d documents", n)
		c.Count("puts", int64(n))
		c.Max("documents", int64(n))
		for _, q := range []string{"far", "e" + kit.Itoa(r.IntN(5)), "apart", "b" + kit.Itoa(r.IntN(3)), "often", "far apart", "often s" + kit.Itoa(8*r.IntN(600)+3), "e0 b0 r0"} {
			check(h, q)
			c.Tick()
		}
		for j := 0; j < 8; j++ {
			k := n - 1 - r.IntN(min(n, 400))
			if j > 4 {
				k = r.IntN(n)
			}
			check(h, Pick(r, []string{"r" + kit.Itoa(k/7), "s" + kit.Itoa(k%5003), "t" + kit.Itoa(k), "r" + kit.Itoa(k/7) + " s" + kit.Itoa(k%5003)}))
		}
		c.Nontrivial(uint64(n))
	})
	base += 1_000_000
	long := append(c.Dict.NewSizes(1100, 120_000), 66_000)
	c.Cases("huge queries", base, len(long), func(r *kit.Rand, i int) {
		// so many words in a query or a document that counts leave 16 bits
		n := long[i]
		h := newHist(c, r, kit.Analyzers[0], false)
		var all, some strings.Builder
		for j := 0; j < n; j++ {
			all.WriteString("w" + kit.Itoa(j) + " ")
			some.WriteString("w" + kit.Itoa(j%7) + " ")
		}
		texts := []string{all.String(), some.String(), "w1 w2 w3", all.String() + "w" + kit.Itoa(n)}
		for j := 0; j < 5; j++ {
			t := texts[j%len(texts)]
			h.put("d"+kit.Itoa(j), t, t)
			c.Tick()
		}
		for _, q := range append(texts, some.String()+"absent") {
			check(h, q)
			c.Tick()
		}
		c.Max("words in a query", int64(n))
		c.Nontrivial(uint64(n) * 31)
	})
}

func init() {
	props["S01"] = func(c *kit.Ctx) {
		histories(c, 1500, 60000, func(h *hist, q string) {
			words := h.an.Ref(q)
			for _, e := range engines[:2] {
				got := flatten(h.search(q, e.name, e.fn))
				want := h.want(e.name, words)
				c.Eval(1)
				if len(want) > 0 {
					c.Count("searches with matches", 1)
				}
				if !sameDocs(got, want) {
					c.Fail(h.witness("query words ", words, "; got ", show(got), "; want ", show(want)), "%s search for %s returns the wrong documents: got %d, want %d", e.name, kit.Clip(q), len(got), len(want))
				}
			}
		})
	}
	props["S02"] = func(c *kit.Ctx) {
		histories(c, 1500, 60000, func(h *hist, q string) {
			words := h.an.Ref(q)
			for _, e := range engines[:2] {
				got := flatten(h.search(q, e.name, e.fn))
				want := h.want(e.name, words)
				c.Eval(1)
				if len(want) > 1 {
					c.Count("searches with several matches", 1)
				}
				if !sameDocs(got, want) {
					// S01 speaks about the set; order and counts are judged on what it has in common
					c.Count("result sets differing from the model (judged by S01)", 1)
					for i, g := range got {
						n := len(words)
						if e.name == "hits" {
							n = len(kit.Uniq(words))
						}
						if len(h.ref.Match(words)) > 0 && g.Hits != n {
							c.Fail(h.witness("result ", i, ": ", show(got[i:i+1])), "%s search for %s: a result reports %d hits, want %d", e.name, kit.Clip(q), g.Hits, n)
						}
					}
					continue
				}
				if !sameSeq(got, want) {
					c.Fail(h.witness("query words ", words, "; got ", show(got), "; want ", show(want)), "%s search for %s returns its results in the wrong order or with the wrong hit counts", e.name, kit.Clip(q))
				}
			}
		})
	}
	props["S03"] = func(c *kit.Ctx) {
		histories(c, 1500, 60000, func(h *hist, q string) {
			for _, e := range engines[2:] {
				got := flatten(h.search(q, e.name, e.fn))
				want := h.want(e.name, nil)
				c.Eval(1)
				if !sameSeq(got, want) {
					c.Fail(h.witness("got ", show(got), "; want ", show(want)), "the match-%s engine returns %d results for %s on %d documents, or returns them wrongly", e.name, len(got), kit.Clip(q), len(want))
				}
			}
		})
	}
	props["S04"] = s04
	props["S05"] = s05
	props["S06"] = s06
}

// s04: documents carry their bytes and are found by their statement.
func s04(c *kit.Ctx) {
	text := func(r *kit.Rand, h *hist) string {
		switch r.IntN(6) {
		case 5:
			a, b := kit.Twins[len(h.name)%7*9][0], kit.Twins[len(h.name)%7*9][1]
			if k := len(h.texts) / 8 % len(kit.Twins); r.P(0.7) {
				a, b = kit.Twins[k][0], kit.Twins[k][1]
			}
			return Pick(r, []string{a, b, a + " uno", b + " uno"})
		case 0:
			return r.Bytes(r.Size(0, 40))
		case 1:
			return r.Text(h.vocab, r.Size(1, 30), false)
		case 2:
			b := make([]byte, r.Size(0, 600))
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			return string(b)
		case 3:
			return strings.Repeat(Pick(r, []string{" ", "\n", "\x00", "x", "<b>", "ñ", "A ", "\xff"}), r.Size(0, 5000))
		}
		return r.Text(h.vocab, r.Size(0, 6), true) + Pick(r, []string{"", " ", "\n", "\r\n", "\x00", "  \t"})
	}
	one := func(r *kit.Rand, i, docs int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.3))
		verify := func(q string) {
			words := h.an.Ref(q)
			for _, e := range engines[:3] {
				rs := h.search(q, e.name, e.fn)
				got := flatten(rs)
				want := h.want(e.name, words)
				c.Eval(1)
				if !sameDocs(got, want) {
					c.Fail(h.witness("query words ", words, "; got ", show(got), "; want ", show(want)), "%s search for %s: the documents returned are not those put with that statement, byte for byte", e.name, kit.Clip(q))
				}
				for k, x := range rs {
					d1, d2 := x.GetDoc(), x.Doc()
					if d1.ID() != got[k].Name || d1.Raw() != got[k].Content || d2.ID() != got[k].Name || d2.Raw() != got[k].Content || x.GetHits() != got[k].Hits {
						c.Fail(h.witness(show(got[k:k+1])), "accessors of a result disagree with its document")
					}
				}
			}
		}
		for j := 0; j < docs; j++ {
			name, content := r.Name(8), text(r, h)
			if r.P(0.3) {
				name = text(r, h)
			}
			statement := content
			if r.P(0.4) {
				statement = text(r, h)
			}
			h.put(name, content, statement)
			if j%(docs/12+1) == 0 {
				verify(h.query())
				verify(Pick(r, []string{name, content, statement}))
			}
		}
		for j := 0; j < 4; j++ {
			d := Pick(r, append(h.texts, ""))
			verify(d)
			if len(h.ref.Docs) > 0 {
				d := Pick(r, h.ref.Docs)
				verify(d.Name)
				verify(d.Content)
			}
		}
		if c.WantSample() && docs > 2 && docs < 10 {
			c.Sample(h.log)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.log, "\n")))
	}
	c.Cases("histories", 0, c.N(3000, 120000), func(r *kit.Rand, i int) { one(r, i, r.Size(1, 40)) })
	c.Cases("large", 1_000_000, c.N(60, 3000), func(r *kit.Rand, i int) { one(r, i, r.Size(64, 1100)) })
	// lengths that leave 16 bits
	c.Cases("long texts", 3_000_000, c.N(40, 1000), func(r *kit.Rand, i int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.3))
		for j := 0; j < 6; j++ {
			long := func() string {
				if r.P(0.3) {
					return r.Text(h.vocab, r.Size(0, 6), true)
				}
				n := Pick(r, []int{1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 70_000, 131_072, 200_000})
				pad := Pick(r, []string{".", " ", "\n", "\x00", "-\xff", "ñ "})
				return r.Text(h.vocab, 4, true) + " " + strings.Repeat(pad, n/len(pad)) + " " + r.Text(h.vocab, 4, true)
			}
			content := long()
			statement := content
			if r.P(0.5) {
				statement = long()
			}
			name := r.Name(8)
			if r.P(0.2) {
				name = long()
			}
			h.put(name, content, statement)
			for k := 0; k < 3; k++ {
				q := h.query()
				e := engines[k]
				got, want := flatten(h.search(q, e.name, e.fn)), h.want(e.name, h.an.Ref(q))
				c.Eval(1)
				if !sameDocs(got, want) {
					c.Fail(h.witness("query ", kit.Clip(q)), "%s search: the documents returned, some of them long, are not those put, byte for byte", e.name)
				}
			}
		}
		c.Nontrivial(uint64(i))
	})
	// a request's own accessors
	c.Cases("requests", 2_000_000, c.N(4000, 100000), func(r *kit.Rand, i int) {
		n, t, s := r.Bytes(5), r.Bytes(8), r.Bytes(8)
		a, b, d := visigoth.NewDocRequest(n, t), visigoth.NewDocRequestWith(n, t, s), visigoth.NewDocRequestWithMime(n, t, visigoth.MimeJSON)
		c.Eval(3)
		for _, x := range []struct {
			q visigoth.DocRequest
			s string
		}{{a, t}, {b, s}, {d, t}} {
			if x.q.ID() != n || x.q.Raw() != t || x.q.Statement() != x.s {
				c.Fail(map[string]any{"name": n, "content": t, "statement": x.s}, "a request does not carry the name, content and statement it was made with")
			}
		}
	})
}

// s05: searching is read-only, results are detached.
func s05(c *kit.Ctx) {
	type kept struct {
		rs   results
		copy []flat
		what string
	}
	one := func(r *kit.Rand, i, docs int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.25))
		var keep []kept
		qs := []string{}
		for len(qs) < 5 {
			qs = append(qs, h.query())
		}
		type key struct {
			q string
			e int
		}
		last := map[key][]flat{}
		ask := func(q string, ei int, mutate bool) {
			e := engines[ei]
			if r.P(0.15) { // an engine of the user that spoils all it is handed
				h.search(q, "spoiling", func(words []string, ix visigoth.Indexer) results {
					for _, w := range words {
						l := ix.Indexed(w)
						for k, full := 0, l[:cap(l)]; k < len(full); k++ {
							full[k] = 0
						}
					}
					for k, full := 0, words[:cap(words)]; k < len(full); k++ {
						full[k] = "spoilt"
					}
					return results{{Document: visigoth.NewDoc("spoilt", ""), Hits: 9}}
				})
			}
			rs := h.search(q, e.name, e.fn)
			got := flatten(rs)
			c.Eval(1)
			if old, ok := last[key{q, ei}]; ok && !sameSeq(old, got) {
				c.Fail(h.witness("first ", show(old), "; then ", show(got)), "repeating %s search for %s with no put in between gives another answer", e.name, kit.Clip(q))
			}
			last[key{q, ei}] = got
			if want := h.want(e.name, h.an.Ref(q)); !sameSeq(got, want) {
				c.Fail(h.witness("got ", show(got), "; want ", show(want)), "%s search for %s on an index of %d documents, after other searches, answers wrongly", e.name, kit.Clip(q), len(h.ref.Docs))
			}
			if mutate {
				c.Count("results overwritten by the caller", 1)
				h.logf("caller overwrites that result")
				switch r.IntN(4) {
				case 0:
					for k := range rs {
						rs[k] = visigoth.SearchResult{Document: visigoth.NewDoc("evil", "evil"), Hits: -7}
					}
				case 1:
					sort.Slice(rs, func(a, b int) bool { return rs[a].Document.Content > rs[b].Document.Content })
				case 2:
					for k, full := 0, rs[:cap(rs)]; k < len(full); k++ {
						full[k] = visigoth.SearchResult{Document: visigoth.NewDoc("evil", "evil"), Hits: -7}
					}
				case 3:
					rs = append(rs, visigoth.SearchResult{Document: visigoth.NewDoc("evil", "evil"), Hits: -7})
					if len(rs) > 1 {
						rs[0], rs[len(rs)-1] = rs[len(rs)-1], rs[0]
					}
				}
				for k, x := range keep {
					if !sameSeq(flatten(x.rs), x.copy) {
						c.Fail(h.witness(x.what, ": was ", show(x.copy), "; is ", show(flatten(x.rs))), "overwriting one result changes result %d obtained earlier", k)
					}
				}
			} else if len(keep) < 60 {
				keep = append(keep, kept{rs, got, e.name + " " + q})
			}
		}
		for j := 0; j < docs; j++ {
			h.putRandom(h.length(8))
			clear(last)
			if docs > 40 && j%(docs/20) != 0 {
				continue
			}
			for k := r.IntN(5); k >= 0; k-- {
				q := Pick(r, qs)
				if r.P(0.1) {
					qs[r.IntN(len(qs))] = h.query()
				}
				if r.P(0.2) {
					// permuted and repeated words in a row
					ws := strings.Fields(q)
					r.Shuffle(len(ws), func(a, b int) { ws[a], ws[b] = ws[b], ws[a] })
					q = strings.Join(ws, " ")
				}
				ask(q, r.IntN(len(engines)), r.P(0.3))
				if r.P(0.5) {
					ask(q, r.IntN(len(engines)), r.P(0.3))
				}
			}
			// visible to the very next search
			if d := h.ref.Docs[len(h.ref.Docs)-1]; len(d.Words) > 0 {
				t := h.texts[len(h.texts)-1]
				ask(t, r.IntN(2), false)
			}
		}
		for k, x := range keep {
			c.Eval(1)
			if !sameSeq(flatten(x.rs), x.copy) {
				c.Fail(h.witness(x.what, ": was ", show(x.copy), "; is ", show(flatten(x.rs))), "result %d, returned earlier, changed afterwards", k)
			}
		}
		// the caller goes on with results obtained before others
		for n := min(len(keep), 6); n > 0; n-- {
			z := r.IntN(len(keep))
			rs := keep[z].rs
			keep = append(keep[:z], keep[z+1:]...)
			evil := visigoth.SearchResult{Document: visigoth.NewDoc("evil", "evil"), Hits: -7}
			if r.P(0.5) {
				rs = append(rs, evil, evil, evil)
			} else {
				rs = rs[:cap(rs)]
				for k := range rs {
					rs[k] = evil
				}
			}
			h.logf("caller appends to or overwrites an earlier result, now of %d", len(rs))
			for k, x := range keep {
				c.Eval(1)
				if !sameSeq(flatten(x.rs), x.copy) {
					c.Fail(h.witness(x.what, ": was ", show(x.copy), "; is ", show(flatten(x.rs))), "the caller's use of one earlier result changes result %d", k)
				}
			}
			ask(Pick(r, qs), r.IntN(len(engines)), false)
		}
		if c.WantSample() && docs > 2 && docs < 8 {
			c.Sample(h.log)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.log, "\n")))
	}
	c.Cases("histories", 0, c.N(2500, 100000), func(r *kit.Rand, i int) { one(r, i, r.Size(1, 40)) })
	c.Cases("large", 1_000_000, c.N(60, 3000), func(r *kit.Rand, i int) { one(r, i, r.Size(64, 1100)) })
	// equal searches with many puts between them, and no other search
	c.Cases("far apart", 4_000_000, c.N(240, 6000), func(r *kit.Rand, i int) {
		h := newHist(c, r, kit.Analyzer{Name: "spaces", Ref: strings.Fields, Make: func() kit.Tokenizer { return kit.SpaceTokenizer{} }, SpacesOnly: true}, r.P(0.25))
		u := 0
		puts := func(n int) {
			for ; n > 0; n-- {
				u++
				t := "all w" + kit.Itoa(u%3)
				h.put("d"+kit.Itoa(u%7), t+" u"+kit.Itoa(u), t)
			}
		}
		qs := []string{"all", "w1", "w2 all", "u0", "all all"}
		var n []int
		for k := 0; k < 3; k++ {
			m := 1 << ((i + 5*k) % 13)
			if r.P(0.3) {
				m = r.Size(1, 3000)
			}
			if i == 120 && k == 0 {
				m = 1 << 16
			}
			n = append(n, m)
		}
		puts(r.IntN(4))
		for k := -1; k < len(n); k++ {
			if k >= 0 {
				puts(n[k])
			}
			for _, e := range engines {
				for _, q := range qs {
					got, want := flatten(h.search(q, e.name, e.fn)), h.want(e.name, strings.Fields(q))
					c.Eval(1)
					if !sameSeq(got, want) {
						c.Fail(map[string]any{"puts between the searches": n[:k+1], "query": q, "results": len(got), "want": len(want)}, "%s search for %q, asked again after %v puts, returns %d results, want %d", e.name, q, n[:k+1], len(got), len(want))
					}
				}
			}
		}
		c.Count("searches asked again after many puts", int64(len(n)*len(qs)))
		c.Nontrivial(kit.Hash(fmt.Sprint(n)))
	})
	c.Cases("many queries", 2_000_000, c.N(40, 1500), func(r *kit.Rand, i int) {
		// thousands of distinct queries, then again: whatever is remembered must
		// stay right when there is too much to remember
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.25))
		h.vocab = r.Vocab(200)
		for j := 0; j < 60; j++ {
			h.putRandom(h.length(8))
		}
		n := r.Size(100, 4200)
		if r.P(0.25) {
			n = 3000 + r.IntN(3000)
		}
		h.log = append(h.log, fmt.Sprintf("%d distinct queries, twice", n))
		var want [][]flat
		for round := 0; round < 2; round++ {
			for k := 0; k < n; k++ {
				q := "w" + kit.Itoa(k) + " " + h.vocab[k%len(h.vocab)]
				if k%3 == 0 {
					q = h.vocab[k%len(h.vocab)] + " " + h.vocab[(k/3)%len(h.vocab)]
				}
				e := engines[k%2]
				h.c.Op("search %s", q)
				var got []flat
				if h.repo == nil {
					got = flatten(h.ix.Search(q, e.fn))
				} else {
					st, err := h.repo.Search(h.name, q, e.fn)
					if err != nil {
						c.Fail(h.witness(), "search fails: %v", err)
					}
					for st.Next() {
						got = append(got, flatten(results{st.Data()})...)
					}
				}
				if round == 0 {
					want = append(want, h.want(e.name, h.an.Ref(q)))
				}
				if !sameSeq(got, want[k]) {
					c.Fail(h.witness("query ", q, " got ", show(got), "; want ", show(want[k])), "search %d of round %d answers wrongly", k, round)
				}
				c.Eval(1)
			}
			if round == 0 && r.P(0.5) {
				t := "fresh " + h.vocab[0]
				if r.P(0.7) { // changes the answer to many of them
					t = strings.Join(h.vocab, " ") + " w" + kit.Itoa(n-1) + " w" + kit.Itoa(n/2+1)
				}
				h.put("late", t, t)
				want = want[:0]
				for k := 0; k < n; k++ {
					q := "w" + kit.Itoa(k) + " " + h.vocab[k%len(h.vocab)]
					if k%3 == 0 {
						q = h.vocab[k%len(h.vocab)] + " " + h.vocab[(k/3)%len(h.vocab)]
					}
					want = append(want, h.want(engines[k%2].name, h.an.Ref(q)))
				}
			}
		}
		c.Nontrivial(kit.Hash(h.log))
	})
}

// s06: user-supplied engines.
// marking makes an engine that answers one result with its own number.
func marking(mark int) visigoth.Engine {
	return func([]string, visigoth.Indexer) results { return results{{Hits: mark}} }
}

func s06(c *kit.Ctx) {
	one := func(r *kit.Rand, i, docs int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), r.P(0.25))
		unknown := []string{"", "absent", "\x00", " ", "nobody has this"}
		probe := func(q string) {
			words := h.an.Ref(q)
			calls := 0
			var ret results
			rn := r.IntN(4)
			engine := func(tokens []string, ix visigoth.Indexer) results {
				calls++
				bad := func(f string, a ...any) {
					c.Fail(h.witness("engine for query ", q), f, a...)
				}
				c.Eval(1)
				if len(tokens) != len(words) {
					bad("the engine is handed %d query words %q, want %d %q", len(tokens), tokens, len(words), words)
				}
				for k := range tokens {
					if tokens[k] != words[k] {
						bad("the engine is handed query word %d %q, want %q", k, tokens[k], words[k])
					}
				}
				view := func() {
					if ix.Len() != len(h.ref.Docs) {
						bad("the view counts %d documents after %d puts", ix.Len(), len(h.ref.Docs))
					}
					step := 1
					if len(h.ref.Docs) > 200 {
						step = 1 + r.IntN(7)
					}
					for k := 0; k < len(h.ref.Docs); k += step {
						d, w := ix.Document(k), h.ref.Docs[k]
						if d.Name != w.Name || d.Content != w.Content || d.ID() != w.Name || d.Raw() != w.Content {
							bad("position %d of the view holds %s, want %s", k, kit.Clip(d.Content), kit.Clip(w.Content))
						}
					}
				}
				view()
				ask := append([]string{}, words...)
				if len(ask) > 12 {
					ask = ask[:12]
				}
				for k := 0; k < 4; k++ {
					ask = append(ask, Pick(r, unknown))
					if len(h.ref.Docs) > 0 {
						if ws := h.an.Ref(Pick(r, h.texts)); len(ws) > 0 {
							ask = append(ask, Pick(r, ws), Pick(r, ws))
						}
					}
				}
				sort.Strings(ask)
				post := func() {
					for _, w := range ask {
						got := ix.Indexed(w)
						var want []int
						for k := range h.ref.Docs {
							if h.ref.Docs[k].Words[w] {
								want = append(want, k)
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) && (len(got) > 0 || len(want) > 0) {
							bad("the view lists %v for word %q, want %v", got, w, want)
						}
						c.Eval(1)
						// the engine spoils what it was handed
						for k, full := 0, got[:cap(got)]; k < len(full); k++ {
							full[k] = -1 - k
						}
						_ = append(got, 7, 8, 9)
					}
				}
				post()
				for k := range tokens {
					tokens[k] = "spoilt"
				}
				_ = append(tokens, "spoilt", "spoilt")
				if h.repo == nil && r.P(0.2) { // it searches the index itself
					for n := 1 + r.IntN(2); n > 0; n-- {
						q2 := Pick(r, []string{q, h.query()})
						for _, e := range engines[:3] {
							if got, want := flatten(h.ix.Search(q2, e.fn)), h.want(e.name, h.an.Ref(q2)); !sameSeq(got, want) {
								bad("a search for %s made by an engine answers wrongly", kit.Clip(q2))
							}
						}
					}
					c.Count("searches made by engines", 1)
				}
				post()
				view()
				switch rn {
				case 0:
					ret = nil
				case 1:
					ret = results{}
				case 2:
					for k := 0; k < 3 && k < ix.Len(); k++ {
						ret = append(ret, visigoth.SearchResult{Document: ix.Document(ix.Len() - 1 - k), Hits: -k})
					}
				case 3:
					ret = results{{Document: visigoth.NewDoc("made up", "\xff"), Hits: 1 << 40}, {Document: visigoth.NewDoc("", ""), Hits: 0}, {Document: visigoth.NewDoc("made up", "\xff"), Hits: 1 << 40}}
				}
				return ret
			}
			if r.P(0.3) { // engines of one function, asked one after the other
				for n := 0; n < 3; n++ {
					mark := r.IntN(1 << 30)
					m := flatten(h.search(q, "custom", marking(mark)))
					c.Eval(1)
					if !(h.repo != nil && len(h.ref.Docs) == 0) && (len(m) != 1 || m[0].Hits != mark) {
						c.Fail(h.witness("the engine returned one result with ", mark, " hits; search returned ", show(m)), "the search does not return what its engine returned")
					}
				}
			}
			got := flatten(h.search(q, "custom", engine))
			if h.repo != nil && len(h.ref.Docs) == 0 {
				return
			}
			if calls != 1 {
				c.Fail(h.witness(), "the engine is called %d times for one search", calls)
			}
			c.Eval(1)
			if !sameSeq(got, flatten(ret)) {
				c.Fail(h.witness("engine returned ", show(flatten(ret)), "; search returned ", show(got)), "the search does not return what the engine returned")
			}
			e := Pick(r, engines)
			g2 := flatten(h.search(q, e.name, e.fn))
			if w2 := h.want(e.name, words); !sameSeq(g2, w2) {
				c.Fail(h.witness("got ", show(g2), "; want ", show(w2)), "after an engine modified the lists it was handed, %s search for %s answers wrongly", e.name, kit.Clip(q))
			}
		}
		every := docs/12 + 1
		for j := 0; j < docs; j++ {
			h.putRandom(h.length(8))
			if j%every == 0 {
				q := h.query()
				probe(q)
				if r.P(0.4) {
					probe(q)
				}
			}
		}
		probe(h.query())
		if c.WantSample() && docs > 2 && docs < 8 {
			c.Sample(h.log)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.log, "\n")))
	}
	c.Cases("histories", 0, c.N(2500, 100000), func(r *kit.Rand, i int) { one(r, i, r.Size(0, 60)) })
	c.Cases("large", 1_000_000, c.N(60, 2500), func(r *kit.Rand, i int) { one(r, i, r.Size(64, 2100)) })
	huge := append(c.Dict.NewSizes(2100, 120_000), 66_000)
	c.Cases("huge", 2_000_000, len(huge), func(r *kit.Rand, i int) {
		ix := visigoth.NewMemoryIndex("huge", kit.SpaceTokenizer{})
		n := huge[i]
		for j := 0; j < n; j++ {
			most := " all"
			if j%50 == 17 {
				most = ""
			}
			ix.Put(visigoth.NewDocRequest("d"+kit.Itoa(j), "r"+kit.Itoa(j/7)+" t"+kit.Itoa(j)+most))
			c.Tick()
		}
		c.Count("puts", int64(n))
		ix.Search("x", func(tokens []string, v visigoth.Indexer) results {
			if v.Len() != n {
				c.Fail(nil, "the view counts %d documents after %d puts", v.Len(), n)
			}
			most := v.Indexed("all")
			for j := 0; j < n; j++ {
				c.Tick()
				if j%50 != 17 {
					if len(most) == 0 || most[0] != j {
						c.Fail(nil, "a word in nearly all of %d documents is not listed at %d, but at %v next", n, j, most[:min(1, len(most))])
					}
					most = most[1:]
				}
				if d := v.Document(j); d.Name != "d"+kit.Itoa(j) {
					c.Fail(nil, "position %d of the view holds %q", j, d.Name)
				}
				if g := v.Indexed("t" + kit.Itoa(j)); len(g) != 1 || g[0] != j {
					c.Fail(nil, "word t%d is listed at %v", j, g)
				}
				if j%7 == 0 {
					g := v.Indexed("r" + kit.Itoa(j/7))
					for k := range g {
						if g[k] != j+k || len(g) != min(7, n-j) {
							c.Fail(nil, "word r%d is listed at %v", j/7, g)
						}
					}
				}
			}
			return nil
		})
		c.Eval(2 * n)
		c.Nontrivial(uint64(n))
	})
}
