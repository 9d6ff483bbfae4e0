package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sonirico/visigoth"

	"verifharness/kit"
)

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	props["A01"] = a01
	props["A02"] = a02
	props["A03"] = a03
	props["A05"] = a05
}

// clean makes a tokenizer of predicates, whether the constructor hands out a
// tokenizer or a pointer to one.
func clean(fs []func(rune) bool) kit.Tokenizer {
	var t any
	switch len(fs) {
	case 0:
		t = visigoth.NewCleanTokenizer()
	case 1:
		t = visigoth.NewCleanTokenizer(fs[0])
	case 2:
		t = visigoth.NewCleanTokenizer(fs[0], fs[1])
	case 3:
		t = visigoth.NewCleanTokenizer(fs[0], fs[1], fs[2])
	default:
		t = visigoth.NewCleanTokenizer(fs[0], fs[1], fs[2], fs[3])
	}
	if t, ok := t.(kit.Tokenizer); ok {
		return t
	}
	p := reflect.New(reflect.TypeOf(t))
	p.Elem().Set(reflect.ValueOf(t))
	return p.Interface().(kit.Tokenizer)
}

// oddCase are words whose letters change case in unusual ways.
var oddCase = []string{"οδοσ", "ΟΔΟΣ", "σοφοσ", "Σ", "λογοσ", "ſtop", "K", "ﬁn", "ǆep", "ǅep", "straße", "ıstanbul", "İzmir", "Ångström", "ß", "ẞ", "Ωmega", "ῼ", "ɐ", "Ჾ"}

func isAlnum(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) }

func a01(c *kit.Ctx) {
	tok := visigoth.NewKeepAlphanumericTokenizer()
	// earlier answers must still be what they were
	type answer struct {
		text, what string
		got, want  []string
	}
	var earlier [16]answer
	calls := 0
	check := func(t kit.Tokenizer, what, text string, keep func(rune) bool) {
		got := t.Tokenize(text)
		want := kit.RefRuns(text, keep)
		c.Eval(1)
		if calls++; eqStrings(got, want) && len(want) < 300 {
			earlier[calls%len(earlier)] = answer{text, what, got, want}
			if e := earlier[(calls*7)%len(earlier)]; !eqStrings(e.got, e.want) {
				c.Fail(map[string]any{"text": fmt.Sprintf("%+q", clipn(e.text)), "was": fmt.Sprintf("%+q", clips(e.want)), "is": fmt.Sprintf("%+q", clips(e.got)), "later text": fmt.Sprintf("%+q", clipn(text))},
					"the answer of %s tokenizer to %s changes when another text is split", e.what, kit.Clip(e.text))
			}
		}
		if !eqStrings(got, want) {
			c.Fail(map[string]any{"text": fmt.Sprintf("%+q", clipn(text)), "got": fmt.Sprintf("%+q", clips(got)), "want": fmt.Sprintf("%+q", clips(want))},
				"%s tokenizer: %d words of %s, want %d (or other words)", what, len(got), kit.Clip(text), len(want))
		}
	}
	// every code point, alone, doubled and between letters
	const block = 0x1000
	c.Cases("every code point", 0, 0x110000/block, func(r *kit.Rand, i int) {
		var all strings.Builder
		for x := rune(i * block); x < rune((i+1)*block); x++ {
			s := string(x)
			c.Op("tokenize %+q", s)
			check(tok, "alphanumeric", s, isAlnum)
			check(tok, "alphanumeric", "a"+s+"b", isAlnum)
			check(tok, "alphanumeric", s+s+" "+s, isAlnum)
			all.WriteString(s)
		}
		check(tok, "alphanumeric", all.String(), isAlnum)
		c.Count("code points", block)
		c.Nontrivial(uint64(i))
	})
	// every byte pair and a good part of the invalid encodings
	c.Cases("byte sequences", 1_000_000, 256, func(r *kit.Rand, i int) {
		for j := 0; j < 256; j++ {
			s := string([]byte{byte(i), byte(j)})
			c.Op("tokenize %+q", s)
			check(tok, "alphanumeric", s, isAlnum)
			check(tok, "alphanumeric", "a"+s+"b"+s, isAlnum)
			for k := 0; k < 16; k++ {
				s := string([]byte{byte(i), byte(j), byte(r.IntN(256)), byte(r.IntN(256))})
				check(tok, "alphanumeric", s, isAlnum)
			}
		}
		c.Nontrivial(1<<40 | uint64(i))
	})
	preds := []struct {
		name string
		f    func(rune) bool
	}{
		{"letter", unicode.IsLetter}, {"digit", unicode.IsDigit}, {"number", unicode.IsNumber}, {"space", unicode.IsSpace},
		{"punct", unicode.IsPunct}, {"never", func(rune) bool { return false }}, {"always", func(rune) bool { return true }},
		{"ascii", func(r rune) bool { return r < 128 }}, {"U+FFFD", func(r rune) bool { return r == utf8.RuneError }},
		{"vowel", func(r rune) bool { return strings.ContainsRune("aeiouáéíóúü", r) }}, {"astral", func(r rune) bool { return r > 0xffff }},
		{"zero", func(r rune) bool { return r == 0 }}, {"upper", unicode.IsUpper}, {"dash", func(r rune) bool { return r == '-' || r == '_' }},
	}
	text := func(r *kit.Rand) string {
		switch r.IntN(6) {
		case 0:
			b := make([]byte, r.Size(0, 300))
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			return string(b)
		case 1: // one very long run
			return strings.Repeat(r.Token(), r.Size(1, 4200))
		case 2: // very many words
			return strings.Repeat(r.Token()+r.Sep(), r.Size(1, 4200))
		case 3: // long runs of separators
			return r.Token() + strings.Repeat(r.Sep(), r.Size(1, 4200)) + r.Token()
		}
		return r.Bytes(r.Size(0, 300))
	}
	c.Cases("random texts", 2_000_000, c.N(24000, 1200000), func(r *kit.Rand, i int) {
		t := text(r)
		c.Op("tokenize %s", kit.Clip(t))
		check(tok, "alphanumeric", t, isAlnum)
		if kit.RefAlnum(t) != nil {
			c.Nontrivial(kit.Hash(t))
		}
		if c.WantSample() && len(t) < 80 {
			c.Sample(map[string]any{"text": fmt.Sprintf("%+q", t), "words": fmt.Sprintf("%+q", tok.Tokenize(t))})
		}
	})
	c.Cases("predicates", 3_000_000, c.N(24000, 1200000), func(r *kit.Rand, i int) {
		t := text(r)
		var fs []func(rune) bool
		names := []string{}
		for n := r.IntN(5); n > 0; n-- {
			p := Pick(r, preds)
			fs = append(fs, p.f)
			names = append(names, p.name)
		}
		keep := func(x rune) bool {
			for _, f := range fs {
				if f(x) {
					return true
				}
			}
			return false
		}
		ct := clean(fs)
		c.Op("tokenize by %v %s", names, kit.Clip(t))
		check(ct, fmt.Sprintf("predicate %v", names), t, keep)
		check(ct, fmt.Sprintf("predicate %v", names), r.Bytes(5), keep)
		for k := r.IntN(3); k > 0; k-- {
			check(ct, fmt.Sprintf("predicate %v", names), text(r), keep)
		}
		c.Nontrivial(kit.Hash(t, names))
	})
}

func clipn(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func clips(s []string) []string {
	if len(s) > 40 {
		s = s[:40]
	}
	out := make([]string, len(s))
	for i, x := range s {
		out[i] = clipn(x)
	}
	return out
}

// recording parts of a pipeline
type recTok struct {
	f     func(string) []string
	calls *[]string
}

func (t recTok) Tokenize(s string) []string {
	*t.calls = append(*t.calls, "T:"+s)
	return t.f(s)
}

type recFilter struct {
	id    string
	f     func([]string) []string
	calls *[]string
}

func (t recFilter) Filter(ts []string) []string {
	*t.calls = append(*t.calls, t.id+fmt.Sprintf("%q", ts))
	return t.f(ts)
}

func a02(c *kit.Ctx) {
	suffixes := strings.Fields("me se sela selo selas selos la le lo las les los nos iéndo ándo ár ér ír ando iendo yendo anza anzas ico ica icos icas ismo ismos able ables ible ibles ista istas oso osa osos osas amiento amientos adora ador ación adoras adores aciones ante antes ancia ancias logía logías ución uciones encia encias amente mente idad idades iva ivo ivas ivos ya ye yan yen yeron yendo yo yó yas yes yais yamos en es éis emos arían ería aría irías ase iese aste iste iera ad ed id os a o á í ó e é")
	word := func(r *kit.Rand) string {
		switch r.IntN(8) {
		case 0:
			return r.Token()
		case 1:
			return r.Bytes(3)
		case 2:
			return Pick(r, kit.StopList)
		case 3:
			return r.Case(Pick(r, kit.StopList))
		case 4:
			return Pick(r, kit.Spanish)
		default:
			w := Pick(r, kit.Spanish)
			rs := []rune(w)
			return string(rs[:1+r.IntN(len(rs))]) + Pick(r, suffixes)
		}
	}
	words := func(r *kit.Rand, max int) []string {
		out := make([]string, r.Size(0, max))
		for i := range out {
			out[i] = word(r)
			if i > 0 && r.P(0.2) {
				out[i] = out[r.IntN(i)]
			}
		}
		return out
	}
	type stage struct {
		name string
		f    visigoth.Filter
		ref  func([]string) []string
	}
	lower := func() stage {
		return stage{"lower", visigoth.NewLowerCaseTokenizer(), kit.RefLower}
	}
	stop := func(r *kit.Rand) stage {
		if r.P(0.4) {
			return stage{"stop(spanish)", visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), func(ts []string) []string { return kit.RefStop(ts, kit.SpanishStop) }}
		}
		sw, ref := visigoth.StopWords{}, map[string]bool{}
		for n := r.Size(0, 40); n > 0; n-- {
			w := word(r)
			sw[w], ref[w] = struct{}{}, true
		}
		if len(ref) == 0 && r.P(0.5) {
			sw = nil
		}
		return stage{fmt.Sprintf("stop(%d words)", len(ref)), visigoth.NewStopWordsFilter(sw), func(ts []string) []string { return kit.RefStop(ts, ref) }}
	}
	stem := func(r *kit.Rand) stage {
		all := r.P(0.6)
		return stage{fmt.Sprintf("stem(%v)", all), visigoth.NewSpanishStemmer(all), func(ts []string) []string { return kit.RefStem(ts, all) }}
	}
	builtin := func(r *kit.Rand) stage {
		switch r.IntN(3) {
		case 0:
			return lower()
		case 1:
			return stop(r)
		}
		return stem(r)
	}
	type kept struct {
		out  []string
		copy []string
		what string
	}
	// single filters
	c.Cases("filters", 0, c.N(16000, 800000), func(r *kit.Rand, i int) {
		st := builtin(r)
		var keep []kept
		for round := 1 + r.IntN(3); round > 0; round-- {
			in := words(r, 40)
			if r.P(0.03) {
				in = words(r, 1100)
			}
			buf := make([]string, len(in), len(in)+4)
			copy(buf, in)
			tail := buf[len(in):cap(buf)]
			for k := range tail {
				tail[k] = "sentinel"
			}
			for again := 1 + r.IntN(2); again > 0; again-- {
				c.Op("filter %s %q", st.name, clips(in))
				got := st.f.Filter(buf)
				want := st.ref(in)
				c.Eval(1)
				if !eqStrings(got, want) {
					c.Fail(map[string]any{"filter": st.name, "in": fmt.Sprintf("%q", clips(in)), "got": fmt.Sprintf("%q", clips(got)), "want": fmt.Sprintf("%q", clips(want))}, "filter %s maps a list of %d words wrongly", st.name, len(in))
				}
				if !eqStrings(buf, in) || !eqStrings(tail, []string{"sentinel", "sentinel", "sentinel", "sentinel"}[:len(tail)]) {
					c.Fail(map[string]any{"filter": st.name, "in": fmt.Sprintf("%q", clips(in)), "now": fmt.Sprintf("%q", clips(buf[:cap(buf)]))}, "filter %s modifies the list it was given", st.name)
				}
				keep = append(keep, kept{got, want, st.name})
			}
		}
		for _, k := range keep {
			c.Eval(1)
			if !eqStrings(k.out, k.copy) {
				c.Fail(map[string]any{"filter": k.what, "was": fmt.Sprintf("%q", clips(k.copy)), "is": fmt.Sprintf("%q", clips(k.out))}, "a later use of filter %s changes an earlier answer", k.what)
			}
		}
		c.Nontrivial(kit.Hash(st.name, fmt.Sprint(keep)))
	})
	// pipelines
	c.Cases("pipelines", 1_000_000, c.N(12000, 600000), func(r *kit.Rand, i int) {
		var calls, wantCalls []string
		tokRef := kit.RefAlnum
		var tok visigoth.Tokenizer = visigoth.NewKeepAlphanumericTokenizer()
		rec := r.P(0.6)
		if r.P(0.3) {
			tokRef = strings.Fields
			tok = kit.SpaceTokenizer{}
		}
		if rec {
			f := tok.Tokenize
			tok = recTok{f, &calls}
		}
		var fs []visigoth.Filter
		var refs []func([]string) []string
		var names []string
		for n := r.Size(0, 9); n > 0; n-- {
			id := "F" + kit.Itoa(n)
			var f visigoth.Filter
			var ref func([]string) []string
			name := ""
			switch r.IntN(6) {
			case 0:
				name = "reverse"
				ref = func(ts []string) []string {
					out := make([]string, 0, len(ts))
					for i := len(ts) - 1; i >= 0; i-- {
						out = append(out, ts[i])
					}
					return out
				}
			case 1:
				name = "mark" + id
				ref = func(ts []string) []string {
					out := []string{}
					for _, t := range ts {
						out = append(out, t+id)
					}
					return out
				}
			case 2:
				name = "double"
				if len(names) > 6 {
					name = "first"
				}
				nm := name
				ref = func(ts []string) []string {
					if nm == "first" && len(ts) > 1 {
						return ts[:1]
					}
					if nm == "first" || len(ts) > 2000 {
						return ts
					}
					out := append([]string{}, ts...)
					return append(out, ts...)
				}
			case 3:
				if r.P(0.2) {
					name = "nothing"
					ref = func([]string) []string { return nil }
					break
				}
				name = "insert"
				ref = func(ts []string) []string { return append([]string{id}, ts...) }
			default:
				st := builtin(r)
				f, ref, name = st.f, st.ref, st.name
			}
			if f == nil {
				g := ref
				f = recFilter{id, g, &calls}
				if rec {
					inner := ref
					idc := id
					ref = func(ts []string) []string {
						wantCalls = append(wantCalls, idc+fmt.Sprintf("%q", ts))
						return inner(ts)
					}
				}
			} else if rec && r.P(0.5) {
				inner, fin, idc := ref, f, id
				f = recFilter{id, fin.Filter, &calls}
				ref = func(ts []string) []string {
					wantCalls = append(wantCalls, idc+fmt.Sprintf("%q", ts))
					return inner(ts)
				}
			}
			fs, refs, names = append(fs, f), append(refs, ref), append(names, name)
		}
		given := append(make([]visigoth.Filter, 0, len(fs)+2), fs...)
		p := visigoth.NewTokenizationPipeline(tok, given...)
		if r.P(0.4) { // the caller goes on using its list: a longer pipeline, other filters
			longer := visigoth.NewTokenizationPipeline(tok, append(given, visigoth.NewLowerCaseTokenizer())...)
			for k := range given {
				if r.P(0.5) {
					given[k] = recFilter{"late", func(ts []string) []string { return append(append([]string{}, ts...), "late") }, &calls}
				}
			}
			if r.P(0.5) {
				visigoth.NewTokenizationPipeline(tok, append(given, visigoth.NewLowerCaseTokenizer(), recFilter{"later", kit.RefLower, &calls})...)
			}
			names = append(names, "(list used again)")
			if r.P(0.3) {
				p, refs = longer, append(refs, kit.RefLower)
			}
		}
		type qa struct {
			text string
			out  []string
			want []string
		}
		var seen []qa
		for k := 1 + r.IntN(5); k > 0; k-- {
			text := r.Text(kit.Spanish, r.Size(1, 30), false)
			switch r.IntN(4) {
			case 0:
				text = r.Bytes(8)
			case 1:
				text = strings.Join(words(r, 12), " ")
			case 2:
				if len(seen) > 0 {
					text = Pick(r, seen).text
				}
			}
			calls, wantCalls = nil, nil
			c.Op("pipeline %v %s", names, kit.Clip(text))
			got := p.Tokenize(text)
			if rec {
				wantCalls = append(wantCalls, "T:"+text)
			}
			want := tokRef(text)
			for _, f := range refs {
				want = f(want)
			}
			c.Eval(1)
			w := map[string]any{"filters": names, "text": kit.Clip(text), "got": fmt.Sprintf("%q", clips(got)), "want": fmt.Sprintf("%q", clips(want))}
			if !eqStrings(got, want) {
				c.Fail(w, "pipeline of %d filters: wrong output", len(names))
			}
			if rec {
				// built-in filters not wrapped leave no call behind
				var a []string
				for _, x := range calls {
					a = append(a, x)
				}
				if !eqStrings(a, wantCalls) {
					w["calls"], w["want calls"] = clips(a), clips(wantCalls)
					c.Fail(w, "pipeline of %d filters: tokenizer and filters are not each called once, in order, with the previous output", len(names))
				}
			}
			seen = append(seen, qa{text, got, append([]string{}, want...)})
		}
		for _, x := range seen {
			c.Eval(1)
			if !eqStrings(x.out, x.want) {
				c.Fail(map[string]any{"filters": names, "text": kit.Clip(x.text), "was": x.want, "is": x.out}, "a later use of a pipeline changes an earlier answer")
			}
		}
		if c.WantSample() && len(names) > 1 {
			c.Sample(map[string]any{"filters": names, "text": kit.Clip(seen[0].text), "words": clips(seen[0].out)})
		}
		c.Nontrivial(kit.Hash(names, seen[0].text))
	})
	// stop words and their neighbours, one by one
	c.Cases("stop words", 2_000_000, len(kit.StopList), func(r *kit.Rand, i int) {
		w := kit.StopList[i]
		f := visigoth.NewStopWordsFilter(visigoth.SpanishStopWords)
		for _, v := range []string{w, w + "s", "x" + w, strings.ToUpper(w), w + w, " " + w, strings.Trim(w, "aeiou"), string([]rune(w)[:1])} {
			in := []string{"uno-mas", v, "otra-cosa", v}
			got := f.Filter(in)
			want := kit.RefStop(in, kit.SpanishStop)
			c.Eval(1)
			if !eqStrings(got, want) {
				c.Fail(map[string]any{"in": in, "got": got, "want": want}, "stop-word filter: %q", v)
			}
			for _, all := range []bool{true, false} {
				got := visigoth.NewSpanishStemmer(all).Filter(in)
				want := kit.RefStem(in, all)
				c.Eval(1)
				if !eqStrings(got, want) {
					c.Fail(map[string]any{"in": in, "got": got, "want": want}, "stemmer(%v): %q", all, v)
				}
			}
		}
		c.Nontrivial(kit.Hash(w))
	})
	// one filter for very many distinct words, twice
	c.Cases("many words", 3_000_000, c.N(16, 400), func(r *kit.Rand, i int) {
		n := Pick(r, []int{300, 1100, 5000, 12000, 70000})
		all := r.P(0.5)
		p := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(all))
		w := func(k int) string {
			rs := []rune(kit.Spanish[k%len(kit.Spanish)])
			return string(rs[:1+k%len(rs)]) + suffixes[(k/7)%len(suffixes)] + string(rune('a'+k%26)) + string(rune('a'+k/26%26)) + string(rune('a'+k/676%26)) + suffixes[k%len(suffixes)]
		}
		for round := 0; round < 2; round++ {
			for k := 0; k < n; k += 50 {
				var b strings.Builder
				for j := k; j < k+50; j++ {
					b.WriteString(w(j))
					b.WriteByte(' ')
				}
				c.Op("pipeline, words %d..", k)
				got := p.Tokenize(b.String())
				want := kit.RefStem(kit.RefStop(kit.RefLower(kit.RefAlnum(b.String())), kit.SpanishStop), all)
				c.Eval(1)
				if !eqStrings(got, want) {
					c.Fail(map[string]any{"text": b.String(), "got": got, "want": want}, "pipeline: wrong words after %d distinct ones (round %d)", k, round)
				}
			}
		}
		c.Nontrivial(kit.Hash(i, n))
	})
	// the list given to a stop-word filter is used as given and left alone
	c.Cases("shared list", 4_000_000, 8, func(r *kit.Rand, i int) {
		c.Eval(1)
		if len(visigoth.SpanishStopWords) != len(kit.SpanishStop) {
			c.Fail(nil, "the Spanish stop-word list changed during use: %d words, had %d", len(visigoth.SpanishStopWords), len(kit.SpanishStop))
		}
		for w := range visigoth.SpanishStopWords {
			if !kit.SpanishStop[w] {
				c.Fail(nil, "the Spanish stop-word list changed during use: %q", w)
			}
		}
		c.Nontrivial(uint64(i))
	})
}

// a03: self-retrieval and query normalisation.
func a03(c *kit.Ctx) {
	// vary changes the case of a word only in ways its lower case cannot tell
	vary := func(r *kit.Rand, w string) string {
		v := r.Case(w)
		if strings.ToLower(v) == strings.ToLower(w) && len(kit.RefAlnum(v)) == 1 {
			return v
		}
		return w
	}
	join := func(r *kit.Rand, ws []string) string {
		var b strings.Builder
		if r.P(0.3) {
			b.WriteString(r.Sep())
		}
		for i, w := range ws {
			if i > 0 {
				b.WriteString(r.Sep())
			}
			b.WriteString(w)
		}
		if r.P(0.3) {
			b.WriteString(r.Sep())
		}
		return b.String()
	}
	pos := func(fs []flat) string {
		var b strings.Builder
		for _, f := range fs {
			b.WriteString(f.Name + " ")
		}
		return b.String()
	}
	run := func(r *kit.Rand, docs, words int) {
		vocab := r.Vocab(4 + r.Size(1, 60))
		if r.P(0.25) {
			for k := 0; k < 3; k++ {
				vocab[r.IntN(len(vocab))] = Pick(r, oddCase)
			}
		}
		ix := visigoth.NewMemoryIndex("a", kit.FullSpanish())
		twin := visigoth.NewMemoryIndex("b", kit.FullSpanish()) // same texts, other case and punctuation
		var texts [][]string
		var log []string
		for i := 0; i < docs; i++ {
			ws := []string{}
			for n := r.Size(1, words); n > 0; n-- {
				w := Pick(r, vocab)
				if len(kit.RefAlnum(w)) == 1 && kit.RefAlnum(w)[0] == w {
					ws = append(ws, w)
				}
			}
			if len(ws) > 0 && r.P(0.3) {
				ws = append(ws, Pick(r, kit.StopList))
				ws[len(ws)-1] = strings.Split(ws[len(ws)-1], " ")[0]
			}
			texts = append(texts, ws)
			t := join(r, ws)
			vs := make([]string, len(ws))
			for k, w := range ws {
				vs[k] = vary(r, w)
			}
			t2 := join(r, vs)
			if len(log) < 60 {
				log = append(log, "put "+kit.Clip(t)+" / "+kit.Clip(t2))
			}
			ix.Put(visigoth.NewDocRequest("d"+kit.Itoa(i), t))
			twin.Put(visigoth.NewDocRequest("d"+kit.Itoa(i), t2))
		}
		for n := 0; n < 12; n++ {
			d := r.IntN(docs)
			var content []string
			for _, w := range texts[d] {
				if !kit.SpanishStop[strings.ToLower(w)] {
					content = append(content, w)
				}
			}
			if len(content) == 0 {
				continue
			}
			// a selection of the document's words
			r.Shuffle(len(content), func(a, b int) { content[a], content[b] = content[b], content[a] })
			sel := content[:1+r.IntN(len(content))]
			if r.P(0.2) {
				sel = content
			}
			base := strings.Join(sel, " ")
			wit := func(q string, extra string) any {
				return map[string]any{"puts": log, "base query": kit.Clip(base), "query": kit.Clip(q), "detail": extra}
			}
			for _, e := range engines[:2] {
				c.Op("search %s %s", e.name, kit.Clip(base))
				bres := flatten(ix.Search(base, e.fn))
				c.Eval(1)
				found := false
				for _, f := range bres {
					if f.Name == "d"+kit.Itoa(d) {
						found = true
					}
				}
				if !found {
					c.Fail(wit(base, pos(bres)), "%s search: document %d is not found by %d of its own words", e.name, d, len(sel))
				}
				variants := 4
				for v := 0; v < variants; v++ {
					ws := append([]string{}, sel...)
					rep := r.P(0.5)
					if rep {
						for k := r.Size(1, 8); k > 0; k-- {
							ws = append(ws, Pick(r, sel))
						}
					}
					if r.P(0.5) {
						for k := r.Size(1, 12); k > 0; k-- {
							s := strings.Split(Pick(r, kit.StopList), " ")[0]
							if !kit.SpanishStop[s] { // "por qué" is a listed pair
								continue
							}
							ws = append(ws, s)
						}
					}
					for k := range ws {
						ws[k] = vary(r, ws[k])
					}
					r.Shuffle(len(ws), func(a, b int) { ws[a], ws[b] = ws[b], ws[a] })
					q := join(r, ws)
					got := flatten(ix.Search(q, e.fn))
					c.Eval(1)
					if pos(got) != pos(bres) {
						c.Fail(wit(q, "base: "+pos(bres)+" variant: "+pos(got)), "%s search: the query written otherwise gives another result", e.name)
					}
					if e.name == "hits" && !sameSeq(got, bres) {
						c.Fail(wit(q, "base: "+show(bres)+" variant: "+show(got)), "hits search: the query written otherwise gives other hit counts")
					}
				}
				tw := flatten(twin.Search(base, e.fn))
				c.Eval(1)
				if pos(tw) != pos(bres) {
					c.Fail(wit(base, "original: "+pos(bres)+" texts in other case and punctuation: "+pos(tw)), "%s search: the case or punctuation of the documents' text matters", e.name)
				}
			}
			c.Nontrivial(kit.Hash(base, docs))
		}
		if c.WantSample() && docs < 8 {
			c.Sample(log)
		}
	}
	c.Cases("histories", 0, c.N(4000, 160000), func(r *kit.Rand, i int) { run(r, r.Size(1, 40), 20) })
	c.Cases("large", 1_000_000, c.N(60, 2500), func(r *kit.Rand, i int) { run(r, r.Size(50, 600), 60) })
	c.Cases("long texts", 2_000_000, c.N(60, 2500), func(r *kit.Rand, i int) { run(r, 3, 2100) })
	// every Spanish word and stop word in every case
	c.Cases("words", 3_000_000, len(kit.Spanish)+len(kit.StopList), func(r *kit.Rand, i int) {
		var w string
		if i < len(kit.Spanish) {
			w = kit.Spanish[i]
		} else {
			w = kit.StopList[i-len(kit.Spanish)]
		}
		stop := kit.SpanishStop[w]
		forms := []string{w, strings.ToUpper(w), strings.Title(w)} //nolint
		for _, df := range forms {
			ix := visigoth.NewMemoryIndex("a", kit.FullSpanish())
			ix.Put(visigoth.NewDocRequest("d", "zzz "+df+" yyy"))
			for _, qf := range forms {
				if strings.Contains(w, " ") {
					continue
				}
				for _, e := range engines[:2] {
					n := len(ix.Search(qf, e.fn))
					m := len(ix.Search("zzz, "+qf+"!", e.fn))
					c.Eval(2)
					if stop && n != 0 || !stop && n != 1 || m != 1 {
						c.Fail(map[string]any{"document word": df, "query word": qf, "stop word": stop, "found alone": n, "found with another word": m}, "%s search: %q does not find %q as it should", e.name, qf, df)
					}
				}
			}
		}
		c.Nontrivial(kit.Hash("word", w))
	})
}

// a05 -------------------------------------------------------------------------

type regionRef struct{ r1, r2, rv int } // byte offsets, len(w) when the region is empty

func refRegions(w []byte) regionRef {
	var vs []bool
	var at []int
	for i := 0; i < len(w); {
		r, n := utf8.DecodeRune(w[i:])
		vs = append(vs, strings.ContainsRune("aeiouáéíóúü", r) && r != utf8.RuneError)
		at = append(at, i)
		i += n
	}
	n := len(vs)
	at = append(at, len(w))
	after := func(from int) int { // after the first non-vowel that follows a vowel
		for i := from + 1; i < n; i++ {
			if vs[i-1] && !vs[i] {
				return i + 1
			}
		}
		return n
	}
	i1 := after(0)
	i2 := after(i1)
	iv := n
	if n >= 3 {
		switch {
		case !vs[1]:
			for i := 2; i < n; i++ {
				if vs[i] {
					iv = i + 1
					break
				}
			}
		case vs[0]:
			for i := 2; i < n; i++ {
				if !vs[i] {
					iv = i + 1
					break
				}
			}
		default:
			iv = 3
		}
	}
	return regionRef{at[i1], at[i2], at[iv]}
}

func a05(c *kit.Ctx) {
	var wall kit.Wall
	checked := 0
	check := func(w []byte) {
		if checked++; checked%4 == 0 || len(w) > 12 {
			// once more in memory that cannot be written and ends with the word
			m := wall.Bytes(w)
			r1, r2, rv := visigoth.R1R2RV(m)
			if ref := refRegions(w); !bytes.Equal(r1, w[ref.r1:]) || !bytes.Equal(r2, w[ref.r2:]) || !bytes.Equal(rv, w[ref.rv:]) {
				c.Fail(map[string]any{"word": fmt.Sprintf("%+q", w), "got": fmt.Sprintf("R1=%+q R2=%+q RV=%+q", r1, r2, rv)}, "wrong regions of %+q: R1=%+q R2=%+q RV=%+q", w, r1, r2, rv)
			}
			c.Count("words in read-only memory", 1)
		}
		buf := make([]byte, len(w), len(w)+8)
		copy(buf, w)
		tail := buf[len(w):cap(buf)]
		for i := range tail {
			tail[i] = 0xaa
		}
		r1, r2, rv := visigoth.R1R2RV(buf)
		ref := refRegions(w)
		c.Eval(1)
		wit := func() any {
			return map[string]any{"word": fmt.Sprintf("%+q", w), "got": fmt.Sprintf("R1=%+q R2=%+q RV=%+q", r1, r2, rv), "want": fmt.Sprintf("R1=%+q R2=%+q RV=%+q", w[ref.r1:], w[ref.r2:], w[ref.rv:])}
		}
		if !bytes.Equal(r1, w[ref.r1:]) || !bytes.Equal(r2, w[ref.r2:]) || !bytes.Equal(rv, w[ref.rv:]) {
			c.Fail(wit(), "wrong regions of %+q: R1=%+q R2=%+q RV=%+q", w, r1, r2, rv)
		}
		if !bytes.Equal(buf, w) {
			c.Fail(wit(), "computing the regions of %+q modifies it", w)
		}
		for _, b := range tail {
			if b != 0xaa {
				c.Fail(wit(), "computing the regions of %+q writes beyond it", w)
			}
		}
	}
	exhaust := func(label string, base int, alpha []string, maxLen int) {
		// one case per choice of the first two letters
		k := len(alpha)
		c.Cases(label, base, k*k, func(r *kit.Rand, i int) {
			var rec func(prefix []byte, left int)
			rec = func(prefix []byte, left int) {
				check(prefix)
				if left == 0 {
					return
				}
				for _, a := range alpha {
					rec(append(prefix[:len(prefix):len(prefix)], a...), left-1)
				}
			}
			p := []byte(alpha[i/k] + alpha[i%k])
			if i == 0 {
				check(nil)
				check([]byte{})
			}
			check([]byte(alpha[i/k]))
			c.Op("regions of words beginning with %+q", p)
			rec(p, maxLen-2)
			c.Nontrivial(kit.Hash(label, i))
		})
	}
	d := 0
	if c.Thorough() {
		d = 3
	}
	exhaust("all words over a,b", 0, []string{"a", "b"}, 14+2*d)
	exhaust("all words over a,á,b,ñ", 1_000_000, []string{"a", "á", "b", "ñ"}, 8+d)
	exhaust("all words over every vowel and some others", 2_000_000, []string{"a", "e", "i", "o", "u", "á", "é", "í", "ó", "ú", "ü", "b", "n", "ñ", "y", "ï", "à", "A", "\xff", "日", "𐐀"}, 4+d/3)
	exhaust("all words over bytes", 3_000_000, []string{"a", "t", "\xc3", "\xa1", "\xff", "\x00", "\xe2"}, 6+d/3)
	c.Cases("vocabulary", 4_000_000, len(kit.Spanish)+len(kit.StopList), func(r *kit.Rand, i int) {
		w := ""
		if i < len(kit.Spanish) {
			w = kit.Spanish[i]
		} else {
			w = kit.StopList[i-len(kit.Spanish)]
		}
		for j := 0; j <= len(w); j++ { // prefixes cut anywhere, also inside a character
			check([]byte(w[:j]))
			check([]byte(w[j:]))
		}
		if c.WantSample() {
			r1, r2, rv := visigoth.R1R2RV([]byte(w))
			c.Sample(map[string]any{"word": w, "R1": string(r1), "R2": string(r2), "RV": string(rv)})
		}
		c.Nontrivial(kit.Hash("v", w))
	})
	c.Cases("random", 5_000_000, c.N(160000, 8000000), func(r *kit.Rand, i int) {
		var w []byte
		switch r.IntN(5) {
		case 0:
			w = []byte(r.Token())
		case 1:
			w = []byte(r.Bytes(r.Size(0, 20)))
		case 2:
			for n := r.Size(0, 300); n > 0; n-- {
				w = append(w, Pick(r, []string{"a", "b", "é", "ñ", "u", "n"})...)
			}
		case 3: // a long stretch of one kind, then the other
			for k := 0; k < 4; k++ {
				w = append(w, strings.Repeat(Pick(r, []string{"a", "b", "ü", "ñ", "r", "o"}), r.Size(0, 300))...)
			}
		case 4:
			w = []byte(strings.ToLower(Pick(r, kit.Spanish) + Pick(r, kit.Spanish)))
		}
		if i%64 == 0 {
			c.Op("regions of %+q", w)
		}
		check(w)
		c.Nontrivial(kit.Hash(string(w)))
	})
}
