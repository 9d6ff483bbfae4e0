import sys
R=sys.argv[1]
def sub(f,*prs):
    p=R+'/'+f; s=open(p).read()
    for a,b in prs:
        assert a in s,(f,a); s=s.replace(a,b,1)
    open(p,'w').write(s)
sub('repos_repo.go',
('''	// 2. Perform the swap
	h.indices[new] = index
	delete(h.indices, old)
	// 3. Update indices to
	h.aliasesMu.Lock()
''','''	h.aliasesMu.Lock()
	h.move(old, new, index)
'''),
('''	h.indicesMu.Unlock()
	h.aliasesMu.Unlock()
	return true''','''	h.aliasesMu.Unlock()
	h.indicesMu.Unlock()
	return true'''),
('''// Rename handles''','''func (h *IndexRepo) move(from, to string, index Index) {
	delete(h.indices, from)
	h.indices[to] = index
}

// Rename handles'''),
('''	results = make([]slices.Slice[SearchResult], len(indices))
	)
	wg.Add(len(indices))
''','''	results = make([]slices.Slice[SearchResult], len(indices))
	)
'''),
('''	for i, index := range indices {
		go func(i int, idx Index) {
			defer wg.Done()
			results[i] = idx.Search(terms, engine)
		}(i, index)
	}''','''	for i, index := range indices {
		wg.Add(1)
		job := func() {
			results[i] = index.Search(terms, engine)
			wg.Done()
		}
		go job()
	}'''),
('''		in := h.indexBuilder(indexName)
		h.indices[indexName] = in
		in.Put(doc)
''','''		in := h.indexBuilder(indexName)
		in = in.Put(doc)
		h.indices[indexName] = in
'''),
('''	i := 0
	for k, v := range h.aliases {
		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
		i++
	}''','''	pos := len(aliases)
	for k, v := range h.aliases {
		pos--
		row := &aliases[pos]
		row.Alias, row.Indices = k, slices.Copy(v)
	}'''),
)
sub('index_memory_index.go',('''	tokens := mi.tokenizer.Tokenize(payload.Statement())
	next := len(mi.Docs)
	newDoc := NewDoc(payload.ID(), payload.Raw())
	mi.Docs = append(mi.Docs, newDoc)
tokenLoop:
	for _, tok := range tokens {
		indexedDocs := mi.InvertedIndex[tok]
		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
		mi.InvertedIndex[tok] = append(indexedDocs, next)
	}
	return mi''','''	next := len(mi.Docs)
	mi.Docs = append(mi.Docs, NewDoc(payload.ID(), payload.Raw()))
	done := make(map[string]struct{})
	for _, tok := range mi.tokenizer.Tokenize(payload.Statement()) {
		if _, ok := done[tok]; !ok {
			done[tok] = struct{}{}
			mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], next)
		}
	}
	return mi'''))
sub('search_noop_search.go',('''	var results SearchResults
	for i := 0; i < indexable.Len(); i++ {
		doc := indexable.Document(i)
		results = append(results, SearchResult{
			Document: doc,
			Hits:     0, // No actual hits since this is a noop
		})
	}
	return slices.Slice[SearchResult](results)''','''	n := indexable.Len()
	results := make([]SearchResult, n)
	for n > 0 {
		n--
		results[n].Document = indexable.Document(n)
	}
	return results'''))
sub('search_linear_search.go',('''	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			i++
		} else if a[i] > b[j] {
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r''','''loop:
	if i >= len(a) || j >= len(b) {
		goto end
	}
	switch {
	case a[i] == b[j]:
		r = append(r, a[i])
		i++
		fallthrough
	case a[i-min(i, 1)] > b[j], i < len(a) && a[i] > b[j]:
		j++
	default:
		i++
	}
	goto loop
end:
	return r''') if False else ('''	var i, j int
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			i++
		} else if a[i] > b[j] {
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r''','''	var i, j int
loop:
	if i >= len(a) || j >= len(b) {
		goto end
	}
	if d := a[i] - b[j]; d == 0 {
		r = append(r, a[i])
		i, j = i+1, j+1
	} else if d < 0 {
		i++
	} else {
		j++
	}
	goto loop
end:
	return r'''))
sub('analyze_compose.go',('''	var res = p.tokenizer.Tokenize(text)
	for _, filter := range p.filters {
		res = filter.Filter(res)
	}
	return res''','''	return p.apply(p.tokenizer.Tokenize(text), p.filters)'''),
('''func NewTokenizationPipeline''','''func (p *TokenizationPipeline) apply(words []string, fs []Filter) []string {
	if len(fs) == 0 {
		return words
	}
	return p.apply(fs[0].Filter(words), fs[1:])
}

func NewTokenizationPipeline'''))
sub('entities_request.go',('''	return DocRequest{
		Name:      name,
		Content:   content,
		MimeType:  MimeText,
		statement: content,
	}''','''	return NewDocRequestWith(name, content, content)'''))
sub('search_result_easyjson.go',('''	w := jwriter.Writer{}
	easyjsonBb771ebaEncodeGithubComSoniricoVisigoth(&w, v)
	return w.Buffer.BuildBytes(), w.Error''','''	var w jwriter.Writer
	v.MarshalEasyJSON(&w)
	return w.BuildBytes()'''))
