package kit

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/kljensen/snowball/spanish"
	"github.com/sonirico/visigoth"
)

// Tokenizer is what an index needs.
type Tokenizer interface{ Tokenize(string) []string }

// Analyzer pairs the code's analyzer with an independent reference.
type Analyzer struct {
	Name       string
	Make       func() Tokenizer
	Ref        func(string) []string
	SpacesOnly bool // only white space separates words
	Commas     bool // only commas do
}

// SpaceTokenizer is a user-supplied tokenizer.
type SpaceTokenizer struct{}

func (SpaceTokenizer) Tokenize(s string) []string { return strings.Fields(s) }

// CommaTokenizer is another one, whose words may hold or be anything.
type CommaTokenizer struct{}

func (CommaTokenizer) Tokenize(s string) []string { return strings.Split(s, ",") }

// RefRuns cuts text into maximal runs of kept characters.
func RefRuns(text string, keep func(rune) bool) []string {
	var out []string
	start := -1
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		if keep(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			out = append(out, text[start:i])
			start = -1
		}
		i += n
	}
	if start >= 0 {
		out = append(out, text[start:])
	}
	return out
}

// RefAlnum is the alphanumeric tokenizer's reference.
func RefAlnum(text string) []string {
	return RefRuns(text, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) })
}

// RefLower lower-cases word by word.
func RefLower(ts []string) []string {
	out := make([]string, 0, len(ts))
	for _, t := range ts {
		out = append(out, strings.ToLower(t))
	}
	return out
}

// RefStop removes listed words.
func RefStop(ts []string, sw map[string]bool) []string {
	out := make([]string, 0, len(ts))
	for _, t := range ts {
		if !sw[t] {
			out = append(out, t)
		}
	}
	return out
}

// RefStem stems word by word.
func RefStem(ts []string, all bool) []string {
	out := make([]string, 0, len(ts))
	for _, t := range ts {
		out = append(out, spanish.Stem(t, all))
	}
	return out
}

// SpanishStop is a private copy of the code's list, taken at start-up.
var SpanishStop = func() map[string]bool {
	m := map[string]bool{}
	for w := range visigoth.SpanishStopWords {
		m[w] = true
	}
	return m
}()

// Analyzers to choose from.
var Analyzers = []Analyzer{
	{"space (user-supplied)", func() Tokenizer { return SpaceTokenizer{} }, strings.Fields, true, false},
	{"alnum", func() Tokenizer { return visigoth.NewKeepAlphanumericTokenizer() }, RefAlnum, false, false},
	{"alnum+lower", func() Tokenizer {
		return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())
	}, func(s string) []string { return RefLower(RefAlnum(s)) }, false, false},
	{"alnum+lower+stop", func() Tokenizer {
		return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords))
	}, func(s string) []string { return RefStop(RefLower(RefAlnum(s)), SpanishStop) }, false, false},
	{"full spanish", FullSpanish, RefFullSpanish, false, false},
	{"full spanish, stop words unstemmed", func() Tokenizer {
		return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(false))
	}, func(s string) []string { return RefStem(RefStop(RefLower(RefAlnum(s)), SpanishStop), false) }, false, false},
	// whatever stands between commas is a word, even nothing
	{"commas (user-supplied)", func() Tokenizer { return CommaTokenizer{} }, func(s string) []string { return strings.Split(s, ",") }, false, true},
}

// FullSpanish is the pipeline of the README.
func FullSpanish() Tokenizer {
	return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(true))
}

// RefFullSpanish is its reference.
func RefFullSpanish(s string) []string {
	return RefStem(RefStop(RefLower(RefAlnum(s)), SpanishStop), true)
}

// RefDoc is a stored document with its analyzed words.
type RefDoc struct {
	Name, Content string
	Words         map[string]bool
}

// RefIndex is the sequential model of one index.
type RefIndex struct {
	Docs []RefDoc
	Ref  func(string) []string
}

// Put stores a document.
func (x *RefIndex) Put(name, content, statement string) {
	ws := map[string]bool{}
	for _, w := range x.Ref(statement) {
		ws[w] = true
	}
	x.Docs = append(x.Docs, RefDoc{name, content, ws})
}

// Match gives the positions of the documents holding every query word.
func (x *RefIndex) Match(q []string) []int {
	if len(q) == 0 {
		return nil
	}
	uniq := Uniq(q)
	var out []int
next:
	for i := range x.Docs {
		for _, w := range uniq {
			if !x.Docs[i].Words[w] {
				continue next
			}
		}
		out = append(out, i)
	}
	return out
}

// Uniq removes repetitions.
func Uniq(q []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, w := range q {
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}

// Req makes a request for (name, content, statement) in one of the ways able to
// express it; now and then the fields that are open to its maker are filled in
// after it was made.
func Req(r *Rand, name, content, statement string) visigoth.DocRequest {
	if r.P(0.2) {
		tmp := Pick3(r, "", "draft", content)
		q := visigoth.NewDocRequestWith(tmp, Pick3(r, "", "draft", name), statement)
		if content == statement && r.P(0.5) {
			q = visigoth.NewDocRequest(tmp, content)
		}
		q.Name = name
		q.Content = content
		if r.P(0.3) {
			q.MimeType = visigoth.MimeJSON
		}
		return q
	}
	if content == statement {
		switch r.IntN(4) {
		case 0:
			return visigoth.NewDocRequestWith(name, content, statement)
		case 1:
			return visigoth.NewDocRequestWithMime(name, content, visigoth.MimeJSON)
		case 2:
			return visigoth.NewDocRequestWithMime(name, content, visigoth.MimeText)
		}
		return visigoth.NewDocRequest(name, content)
	}
	return visigoth.NewDocRequestWith(name, content, statement)
}

// Pick3 is one of three.
func Pick3(r *Rand, a, b, c string) string {
	return [3]string{a, b, c}[r.IntN(3)]
}
