import sys
R=sys.argv[1]
p=R+'/repos_repo.go'; s=open(p).read()
# single mutex, channel fan-out
s=s.replace('	aliasesMu *sync.RWMutex\n','').replace('		aliasesMu:    new(sync.RWMutex),\n','')
i=s.index('func (h *IndexRepo) List()'); j=s.index('func NewIndexRepo')
body='''
func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	names := make([]string, 0, len(h.indices))
	for n := range h.indices {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func (h *IndexRepo) read(f func()) {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	f()
}

func (h *IndexRepo) write(f func()) {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	f()
}

func (h *IndexRepo) Has(name string) (ok bool) {
	h.read(func() { _, ok = h.indices[name] })
	return
}

func (h *IndexRepo) HasAlias(name string) (ok bool) {
	h.read(func() { _, ok = h.aliases[name] })
	return
}

func (h *IndexRepo) Alias(alias string, index string) (added bool) {
	h.write(func() {
		if _, ok := h.indices[index]; !ok {
			return
		}
		for _, x := range h.aliases[alias] {
			if x == index {
				return
			}
		}
		h.aliases[alias] = append(h.aliases[alias], index)
		added = true
	})
	return
}

func (h *IndexRepo) UnAlias(alias, index string) (done bool) {
	h.write(func() {
		old, ok := h.aliases[alias]
		if index == "" {
			delete(h.aliases, alias)
			done = ok
			return
		}
		if _, exists := h.indices[index]; !exists || !ok {
			return
		}
		h.setAlias(alias, drop(old, index))
		done = true
	})
	return
}

func drop(l []string, x string) (out []string) {
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return
}

func (h *IndexRepo) setAlias(alias string, l []string) {
	if len(l) == 0 {
		delete(h.aliases, alias)
	} else {
		h.aliases[alias] = l
	}
}

func (h *IndexRepo) Rename(old string, new string) (ok bool) {
	h.write(func() {
		var index Index
		if index, ok = h.indices[old]; !ok || old == new {
			return
		}
		h.indices[new] = index
		delete(h.indices, old)
		for alias, l := range h.aliases {
			has := false
			for _, n := range l {
				has = has || n == old
			}
			if !has {
				continue
			}
			l = drop(l, new)
			for i := range l {
				if l[i] == old {
					l[i] = new
				}
			}
			h.aliases[alias] = l
		}
	})
	return
}

type answer struct {
	at  int
	res slices.Slice[SearchResult]
}

func (h *IndexRepo) Search(
	indexName string,
	terms string,
	engine Engine,
) (streams.ReadStream[SearchResult], error) {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	indices := h.resolve(indexName)
	if indices == nil {
		return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
	}
	ch := make(chan answer)
	for i, in := range indices {
		i, in := i, in
		go func() { ch <- answer{i, in.Search(terms, engine)} }()
	}
	parts := make([]slices.Slice[SearchResult], len(indices))
	for range indices {
		a := <-ch
		parts[a.at] = a.res
	}
	var all slices.Slice[SearchResult]
	for _, p := range parts {
		all.AppendVector(p)
	}
	return streams.MemReader(all, nil), nil
}

func (h *IndexRepo) Put(indexName string, doc DocRequest) {
	h.write(func() {
		indices := h.resolve(indexName)
		if indices == nil {
			in := h.indexBuilder(indexName)
			in.Put(doc)
			h.indices[indexName] = in
			return
		}
		jobs := make(chan Index, len(indices))
		done := make(chan struct{}, len(indices))
		for k := 0; k < 3 && k < len(indices); k++ {
			go func() {
				for in := range jobs {
					in.Put(doc)
					done <- struct{}{}
				}
			}()
		}
		for _, in := range indices {
			jobs <- in
		}
		close(jobs)
		for n := len(indices); n > 0; n-- {
			select {
			case <-done:
			}
		}
	})
}

func (h *IndexRepo) Drop(indexName string) (ok bool) {
	h.write(func() {
		if _, ok = h.indices[indexName]; !ok {
			return
		}
		delete(h.indices, indexName)
		for alias, l := range h.aliases {
			h.setAlias(alias, drop(l, indexName))
		}
	})
	return
}

func (h *IndexRepo) ListAliases() (res AliasesResult) {
	h.read(func() {
		res.Aliases = make([]AliasesResultRow, 0, len(h.aliases))
		for a, l := range h.aliases {
			res.Aliases = append(res.Aliases, AliasesResultRow{a, append([]string(nil), l...)})
		}
	})
	sort.Slice(res.Aliases, func(i, j int) bool { return res.Aliases[i].Alias < res.Aliases[j].Alias })
	return
}

func (h *IndexRepo) resolve(name string) []Index {
	if in, ok := h.indices[name]; ok {
		return []Index{in}
	}
	var res []Index
	for _, n := range h.aliases[name] {
		res = append(res, h.indices[n])
	}
	return res
}

func (h *IndexRepo) String() string {
	var buf bytes.Buffer
	h.read(func() {
		for _, index := range h.indices {
			buf.WriteString(fmt.Sprint(index))
			buf.WriteByte('\\n')
		}
	})
	return buf.String()
}

'''
s=s[:i]+body+s[j:]
s=s.replace('	"fmt"\n','	"fmt"\n	"sort"\n')
open(p,'w').write(s)
p=R+'/search_hits_search.go'; s=open(p).read()
i=s.index('func HitsSearch')
s=s[:i]+'''func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
	uniq := map[string]bool{}
	count := map[int]int{}
	for _, t := range tokens {
		if !uniq[t] {
			uniq[t] = true
			for _, at := range indexer.Indexed(t) {
				count[at]++
			}
		}
	}
	at := make([]int, 0, len(count))
	for k, n := range count {
		if n == len(uniq) {
			at = append(at, k)
		}
	}
	sort.Ints(at)
	results := make(slices.Slice[SearchResult], 0, len(at))
	for _, k := range at {
		results = append(results, SearchResult{indexer.Document(k), len(uniq)})
	}
	return results
}
'''
open(p,'w').write(s)
p=R+'/search_linear_search.go'; s=open(p).read()
i=s.index('func LinearSearch')
s=s[:i]+'''func LinearSearch(tokens []string, indexable Indexer) slices.Slice[SearchResult] {
	var docs []int
	for i, t := range tokens {
		l := indexable.Indexed(t)
		if i == 0 {
			docs = l
		} else {
			docs = intersection(l, docs)
		}
		if len(docs) == 0 {
			return nil
		}
	}
	results := make([]SearchResult, len(docs))
	for i := range docs {
		results[i].Document = indexable.Document(docs[i])
		results[i].Hits = len(tokens)
	}
	return results
}
'''
open(p,'w').write(s)
