import sys,re
R=sys.argv[1]
p=R+'/repos_repo.go'; s=open(p).read()
i=s.index('func (h *IndexRepo) List()'); j=s.index('func NewIndexRepo')
body='''
func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	names := make([]string, 0, len(h.indices))
	for n := range h.indices {
		names = append(names, n)
	}
	return names
}

func (h *IndexRepo) Has(name string) bool {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	return h.exists(name)
}

func (h *IndexRepo) exists(name string) bool {
	_, ok := h.indices[name]
	return ok
}

func (h *IndexRepo) HasAlias(name string) bool {
	h.aliasesMu.RLock()
	defer h.aliasesMu.RUnlock()
	_, ok := h.aliases[name]
	return ok
}

func contains(l []string, x string) bool {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == x {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	out := make([]string, 0, len(l))
	for _, y := range l {
		if y == x {
			continue
		}
		out = append(out, y)
	}
	return out
}

func (h *IndexRepo) Alias(alias string, index string) bool {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	if !h.exists(index) {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	current := h.aliases[alias]
	if contains(current, index) {
		return false
	}
	h.aliases[alias] = append(current, index)
	return true
}

// detach removes index from alias; aliasesMu must be held.
func (h *IndexRepo) detach(alias, index string) {
	rest := without(h.aliases[alias], index)
	if len(rest) == 0 {
		delete(h.aliases, alias)
		return
	}
	h.aliases[alias] = rest
}

func (h *IndexRepo) UnAlias(alias, index string) bool {
	if index == "" {
		h.aliasesMu.Lock()
		defer h.aliasesMu.Unlock()
		_, ok := h.aliases[alias]
		delete(h.aliases, alias)
		return ok
	}
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	if !h.exists(index) {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	if _, ok := h.aliases[alias]; !ok {
		return false
	}
	h.detach(alias, index)
	return true
}

func (h *IndexRepo) Rename(old string, new string) bool {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	index, ok := h.indices[old]
	if !ok || old == new {
		return ok
	}
	delete(h.indices, old)
	h.indices[new] = index
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	for alias, l := range h.aliases {
		if !contains(l, old) {
			continue
		}
		next := make([]string, 0, len(l))
		for _, n := range l {
			switch n {
			case old:
				next = append(next, new)
			case new:
			default:
				next = append(next, n)
			}
		}
		h.aliases[alias] = next
	}
	return true
}

func (h *IndexRepo) searchInto(wg *sync.WaitGroup, out *slices.Slice[SearchResult], idx Index, terms string, engine Engine) {
	defer wg.Done()
	*out = idx.Search(terms, engine)
}

func (h *IndexRepo) Search(
	indexName string,
	terms string,
	engine Engine,
) (streams.ReadStream[SearchResult], error) {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	indices, ok := h.getIndices(indexName)
	if !ok {
		return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
	}
	results := make([]slices.Slice[SearchResult], len(indices))
	var wg sync.WaitGroup
	for i := range indices {
		wg.Add(1)
		go h.searchInto(&wg, &results[i], indices[i], terms, engine)
	}
	wg.Wait()
	var all slices.Slice[SearchResult]
	for _, r := range results {
		for _, x := range r {
			all = append(all, x)
		}
	}
	return streams.MemReader(all, nil), nil
}

func putOne(wg *sync.WaitGroup, in Index, doc DocRequest) {
	defer wg.Done()
	in.Put(doc)
}

func (h *IndexRepo) Put(indexName string, doc DocRequest) {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	indices, ok := h.getIndices(indexName)
	if !ok {
		h.create(indexName).Put(doc)
		return
	}
	wg := &sync.WaitGroup{}
	wg.Add(len(indices))
	for i := len(indices) - 1; i >= 0; i-- {
		go putOne(wg, indices[i], doc)
	}
	wg.Wait()
}

func (h *IndexRepo) create(name string) Index {
	in := h.indexBuilder(name)
	h.indices[name] = in
	return in
}

func (h *IndexRepo) Drop(indexName string) bool {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	if !h.exists(indexName) {
		return false
	}
	delete(h.indices, indexName)
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	for alias := range h.aliases {
		if contains(h.aliases[alias], indexName) {
			h.detach(alias, indexName)
		}
	}
	return true
}

func (h *IndexRepo) ListAliases() AliasesResult {
	h.aliasesMu.RLock()
	defer h.aliasesMu.RUnlock()
	var res AliasesResult
	res.Aliases = make([]AliasesResultRow, 0, len(h.aliases))
	for name := range h.aliases {
		row := AliasesResultRow{Alias: name}
		row.Indices = append(row.Indices, h.aliases[name]...)
		res.Aliases = append(res.Aliases, row)
	}
	return res
}

func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
	if in, ok := h.indices[name]; ok {
		return []Index{in}, true
	}
	h.aliasesMu.RLock()
	defer h.aliasesMu.RUnlock()
	names, ok := h.aliases[name]
	if !ok {
		return nil, false
	}
	var res []Index
	for _, n := range names {
		res = append(res, h.indices[n])
	}
	return res, true
}

func (h *IndexRepo) String() string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	var buf bytes.Buffer
	for _, index := range h.indices {
		fmt.Fprintln(&buf, index)
	}
	return buf.String()
}

'''
s=s[:i]+body+s[j:]
open(p,'w').write(s)
p=R+'/index_memory_index.go'; s=open(p).read()
i=s.index('func (mi *MemoryIndex) Indexed'); j=s.index('func NewMemoryIndex(')
s=s[:i]+'''func (mi *MemoryIndex) Indexed(key string) []int {
	data, ok := mi.InvertedIndex[key]
	if !ok {
		return nil
	}
	out := make([]int, len(data))
	copy(out, data)
	return out
}

func (mi *MemoryIndex) Document(index int) Doc {
	return mi.Docs[index]
}

func (mi *MemoryIndex) String() string {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "{\\n\\tname=%s", mi.name)
	for token, indexed := range mi.InvertedIndex {
		fmt.Fprintf(&buf, "\\n\\t[token=%s,length=(%d)]=%v", token, len(indexed), indexed)
	}
	fmt.Fprint(&buf, "\\n}")
	return buf.String()
}

func (mi *MemoryIndex) post(tok string, at int) {
	l := mi.InvertedIndex[tok]
	if n := len(l); n > 0 && l[n-1] == at {
		return
	}
	mi.InvertedIndex[tok] = append(l, at)
}

func (mi *MemoryIndex) Put(payload DocRequest) Index {
	at := mi.Len()
	for _, tok := range mi.tokenizer.Tokenize(payload.Statement()) {
		mi.post(tok, at)
	}
	mi.Docs = append(mi.Docs, Doc{Name: payload.ID(), Content: payload.Raw()})
	return mi
}

func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
	words := mi.tokenizer.Tokenize(payload)
	res := engine(words, mi)
	return res
}

'''+s[j:]
open(p,'w').write(s)
