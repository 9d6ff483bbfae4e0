import sys
R=sys.argv[1]
# sequential everything, plain Mutex, embedded atomics, pools, Once
p=R+'/repos_repo.go'; s=open(p).read()
s=s.replace('*sync.RWMutex','*sync.Mutex').replace('new(sync.RWMutex)','new(sync.Mutex)').replace('.RLock()','.Lock()').replace('.RUnlock()','.Unlock()')
i=s.index('	var (\n		wg      sync.WaitGroup'); j=s.index('func (h *IndexRepo) Put(')
s=s[:i]+'''	var result slices.Slice[SearchResult]
	for _, in := range indices {
		result.AppendVector(in.Search(terms, engine))
	}
	return streams.MemReader(result, nil), nil
}

'''+s[j:]
i=s.index('	var wg sync.WaitGroup'); j=s.index('func (h *IndexRepo) Drop')
s=s[:i]+'''	for _, in := range indices {
		in.Put(doc)
	}
	h.puts.Add(int64(len(indices)))
	h.indicesMu.Unlock()
}

'''+s[j:]
s=s.replace('	indexBuilder Builder\n','	indexBuilder Builder\n	puts         atomic.Int64\n	once         sync.Once\n').replace('	"sync"\n','	"sync"\n	"sync/atomic"\n')
open(p,'w').write(s)
p=R+'/analyze_clean_tokenizer.go'; s=open(p).read()
i=s.index('func (c *CleanTokenizer) Tokenize'); j=s.index('func NewCleanTokenizer')
s=s[:i]+'''func (c *CleanTokenizer) keep(r rune) bool {
	for i := 0; i < len(c.fns); i++ {
		if c.fns[i](r) {
			return true
		}
	}
	return false
}

func (c *CleanTokenizer) Tokenize(text string) []string {
	words := make([]string, 0)
	start := -1
	for i, r := range text {
		if c.keep(r) {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			words = append(words, text[start:i])
			start = -1
		}
	}
	if start >= 0 {
		words = append(words, text[start:])
	}
	return words
}

'''+s[j:]
s=s.replace('	"strings"\n','')
open(p,'w').write(s)
p=R+'/analyze_lowercase_filter.go'; s=open(p).read()
s=s.replace('''	r := make([]string, len(tokens), len(tokens))
	for i, token := range tokens {
		r[i] = strings.ToLower(token)
	}
	return r''','''	var r []string
	for i := 0; i < len(tokens); i++ {
		r = append(r, strings.ToLower(tokens[i]))
	}
	return r''')
open(p,'w').write(s)
p=R+'/analyze_stem_filter.go'; s=open(p).read()
s=s.replace('''	r := make([]string, 0, len(tokens))
	for _, token := range tokens {
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
	}
	return r''','''	seen := make(map[string]string)
	r := make([]string, len(tokens))
	for i, token := range tokens {
		stem, ok := seen[token]
		if !ok {
			stem = snowballSpanish.Stem(token, s.removeStopWords)
			seen[token] = stem
		}
		r[i] = stem
	}
	return r''')
open(p,'w').write(s)
p=R+'/analyze_stopwords_filter.go'; s=open(p).read()
s=s.replace('''	for _, tok := range tokens {
		if _, ok := s.stopWords[tok]; !ok {
			r = append(r, tok)
		}
	}''','''	for i := range tokens {
		if _, stop := s.stopWords[tokens[i]]; stop {
			continue
		}
		r = append(r, tokens[i])
	}''')
open(p,'w').write(s)
p=R+'/stemmer_spanish_snowball.go'; s=open(p).read()
i=s.index('//nolint:nakedret'); j=s.index('type Stemmer struct')
s=s[:i]+'''// afterVC gives the region after the first non-vowel following a vowel.
func afterVC(w []byte) []byte {
	vowel := false
	for i := 0; i < len(w); {
		r, n := utf8.DecodeRune(w[i:])
		i += n
		if isVowel(r) {
			vowel = true
		} else if vowel {
			if i >= len(w) {
				return nil
			}
			return w[i:]
		}
	}
	return nil
}

func R1R2RV(w []byte) ([]byte, []byte, []byte) {
	r1 := afterVC(w)
	r2 := afterVC(r1)
	var at []int
	var v []bool
	for i, r := range string(w) {
		at, v = append(at, i), append(v, isVowel(r))
	}
	if len(at) < 3 {
		return r1, r2, nil
	}
	find := func(want bool) []byte {
		for i := 2; i+1 < len(at); i++ {
			if v[i] == want {
				return w[at[i+1]:]
			}
		}
		return nil
	}
	switch {
	case !v[1]:
		return r1, r2, find(true)
	case v[0]:
		return r1, r2, find(false)
	case len(at) > 3:
		return r1, r2, w[at[3]:]
	}
	return r1, r2, nil
}

'''+s[j:]
s=s.replace('package visigoth\n','package visigoth\n\nimport "unicode/utf8"\n',1)
open(p,'w').write(s)
p=R+'/search_result_easyjson.go'; s=open(p).read()
s=s.replace('''		case "doc":
			easyjsonBb771ebaDecodeGithubComSoniricoVisigoth1(in, &out.Document)
		case "hits":
			out.Hits = int(in.Int())
''','''		case "hits":
			n := in.Int()
			out.Hits = n
		case "doc":
			d := &out.Document
			easyjsonBb771ebaDecodeGithubComSoniricoVisigoth1(in, d)
''')
open(p,'w').write(s)
