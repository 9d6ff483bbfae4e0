# Modern library use: iterators, cmp, hand-made digests; searches by counting.
import sys
R=sys.argv[1]
def w(f,s): open(R+'/'+f,'w').write(s)
def sub(f,*prs):
    p=R+'/'+f; s=open(p).read()
    for a,b in prs:
        assert a in s,(f,a); s=s.replace(a,b,1)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=R+'/'+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i)
    open(p,'w').write(s[:i]+new+s[j:])
F='repos_repo.go'
cut(F,'func (h *IndexRepo) List()','func (h *IndexRepo) Has(','''func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	return stdslices.AppendSeq(make([]string, 0, len(h.indices)), maps.Keys(h.indices))
}

''')
cut(F,'	// 2. Index exists, apply alias','func (h *IndexRepo) UnAlias','''	defer h.indicesMu.RUnlock()
	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	if stdslices.Contains(h.aliases[alias], index) {
		return false
	}
	h.aliases[alias] = append(h.aliases[alias], index)
	return true
}

''')
cut(F,'	var newIndices []string\n	for _, aliasedIndexName := range indices {\n		if aliasedIndexName != index {','// Rename handles','''	h.keep(alias, stdslices.DeleteFunc(stdslices.Clone(indices), func(n string) bool { return n == index }))
	return true
}

// keep makes an alias point to what is left; aliasesMu must be held
func (h *IndexRepo) keep(alias string, left []string) {
	if len(left) == 0 {
		delete(h.aliases, alias)
		return
	}
	h.aliases[alias] = left
}

''')
cut(F,'	// Get indices while','	if len(indices) == 1 {','''	indices, ok := h.getIndices(indexName)
	if !ok {
		return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
	}

''')
cut(F,'	var (\n		wg      sync.WaitGroup\n		result ','func (h *IndexRepo) Put','''	var wg sync.WaitGroup
	results := make([]slices.Slice[SearchResult], len(indices))
	for i, index := range indices {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = index.Search(terms, engine)
		}()
	}
	wg.Wait()
	return streams.MemReader(slices.Slice[SearchResult](stdslices.Concat(results...)), nil), nil
}

''')
cut(F,'	indices, ok := h.getIndices(indexName)\n	if !ok {\n		// TODO','func (h *IndexRepo) Drop','''	defer h.indicesMu.Unlock()
	indices, ok := h.getIndices(indexName)
	if !ok {
		h.indices[indexName] = h.indexBuilder(indexName)
		indices = append(indices, h.indices[indexName])
	}
	var wg sync.WaitGroup
	for _, in := range indices {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in.Put(doc)
		}()
	}
	wg.Wait()
}

''')
cut(F,'	for alias, indices := range h.aliases {\n		var newIndices []string\n		for _, aliased','	// Actually drop','''	for alias, indices := range maps.Clone(h.aliases) {
		if !stdslices.Contains(indices, indexName) {
			continue
		}
		var left []string
		for _, n := range indices {
			if n != indexName {
				left = append(left, n)
			}
		}
		h.keep(alias, left)
	}
''')
sub(F,('"fmt"\n','"fmt"\n	"maps"\n	stdslices "slices"\n'))
M='index_memory_index.go'
cut(M,'	tokens := mi.tokenizer','func (mi *MemoryIndex) Search','''	next := len(mi.Docs)
	mi.Docs = append(mi.Docs, NewDoc(payload.ID(), payload.Raw()))
	distinct := make(map[string]bool)
	for _, tok := range mi.tokenizer.Tokenize(payload.Statement()) {
		distinct[tok] = true
	}
	for tok := range distinct {
		mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], next)
	}
	return mi
}

''')
cut(M,'func (mi *MemoryIndex) Indexed','func (mi *MemoryIndex) Document','''func (mi *MemoryIndex) Indexed(key string) []int {
	if data, ok := mi.InvertedIndex[key]; ok {
		return slices.Copy(data)
	}
	return nil
}

''')
s=open(R+'/search_hits_search.go').read()
i=s.index('func HitsSearch')
w('search_hits_search.go',s[:i].replace('import (\n	"sort"\n\n','import (\n')+'''func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
	unique := make(map[string]struct{}, len(tokens))
	hits := make([]int, indexer.Len())
	for _, token := range tokens {
		if _, seen := unique[token]; seen {
			continue
		}
		unique[token] = struct{}{}
		for _, index := range indexer.Indexed(token) {
			hits[index]++
		}
	}
	if len(unique) == 0 {
		return nil
	}
	var results slices.Slice[SearchResult]
	for i, n := range hits {
		if n == len(unique) {
			results = append(results, SearchResult{Document: indexer.Document(i), Hits: n})
		}
	}
	return results
}
''')
cut('search_linear_search.go','func LinearSearch','ZZZ' if False else '	// Convert document indices','''func LinearSearch(tokens []string, indexable Indexer) slices.Slice[SearchResult] {
	if len(tokens) == 0 {
		return nil
	}
	var docs []int
	done := make(map[string]bool)
	for i, token := range tokens {
		if done[token] {
			continue
		}
		done[token] = true
		next := indexable.Indexed(token)
		if i > 0 {
			next = intersection(docs, next)
		}
		if docs = next; len(docs) == 0 {
			return nil
		}
	}
''')
cut('search_result.go','	// Primary sort','func (r SearchResults) Swap','''	return cmp.Or(cmp.Compare(r[j].Hits, r[i].Hits), cmp.Compare(r[i].Document.Name, r[j].Document.Name)) < 0
}

''')
sub('search_result.go',('package visigoth\n','package visigoth\n\nimport "cmp"\n'))
w('entities_hash.go','''package visigoth

type Hashable interface {
	Hash() HashKey
}

type HashKey struct {
	value uint64
}

func (d Doc) Hash() HashKey {
	h := uint64(14695981039346656037)
	for i := 0; i < len(d.Name); i++ {
		h *= 1099511628211
		h ^= uint64(d.Name[i])
	}
	return HashKey{value: h}
}
''')
cut('analyze_clean_tokenizer.go','	return strings.FieldsFunc','func NewClean','''	out := make([]string, 0, 8)
	from := -1
	for i, r := range text {
		if !c.keeps(r) {
			if from >= 0 {
				out = append(out, text[from:i])
			}
			from = -1
		} else if from < 0 {
			from = i
		}
	}
	if from >= 0 {
		out = append(out, text[from:])
	}
	return out
}

func (c *CleanTokenizer) keeps(r rune) bool {
	return slices.ContainsFunc(c.fns, func(fn cleanFunc) bool { return fn(r) })
}

''')
sub('analyze_clean_tokenizer.go',('"strings"','"slices"'))
cut('analyze_stopwords_filter.go','	var (\n		r = ','func NewStop','''	r := slices.Clone(tokens)
	return slices.DeleteFunc(r, func(tok string) bool {
		_, stop := s.stopWords[tok]
		return stop
	})
}

''')
sub('analyze_stopwords_filter.go',('package visigoth\n','package visigoth\n\nimport "slices"\n'))
s=open(R+'/stemmer_spanish_snowball.go').read()
i=s.index('//nolint'); j=s.index('type Stemmer struct')
w('stemmer_spanish_snowball.go','package visigoth\n\nimport "unicode/utf8"\n'+s[len('package visigoth\n'):i]+'''// after is the part of w after the first rune that is a vowel or not, from the
// given position on
func after(w []byte, from int, vowel bool) int {
	for i := from; i < len(w); {
		r, n := utf8.DecodeRune(w[i:])
		i += n
		if isVowel(r) == vowel {
			return i
		}
	}
	return -1
}

func region(w []byte) []byte {
	v := after(w, 0, true)
	if v < 0 {
		return nil
	}
	if c := after(w, v, false); c >= 0 && c < len(w) {
		return w[c:]
	}
	return nil
}

func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
	r1 = region(w)
	r2 = region(r1)
	if utf8.RuneCount(w) < 3 {
		return
	}
	a, n := utf8.DecodeRune(w)
	b, m := utf8.DecodeRune(w[n:])
	second := n + m
	at := -1
	switch {
	case !isVowel(b):
		at = after(w, second, true)
	case isVowel(a):
		at = after(w, second, false)
	default:
		_, k := utf8.DecodeRune(w[second:])
		at = second + k
	}
	if at >= 0 && at < len(w) {
		rv = w[at:]
	}
	return
}

'''+s[j:])
sub('search_result_easyjson.go',('''		switch key {
		case "doc":
			easyjsonBb771ebaDecodeGithubComSoniricoVisigoth1(in, &out.Document)
		case "hits":
			out.Hits = int(in.Int())
		default:
			in.SkipRecursive()
		}''','''		if key == "hits" {
			out.Hits = in.Int()
		} else if key == "doc" {
			easyjsonBb771ebaDecodeGithubComSoniricoVisigoth1(in, &out.Document)
		} else {
			in.SkipRecursive()
		}'''))
