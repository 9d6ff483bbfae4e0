import sys
R=sys.argv[1]
p=R+'/repos_repo.go'; s=open(p).read()
i=s.index('// IndexRepo handles'); 
head=s[:i].replace('	"bytes"\n	"fmt"\n	"sync"\n','	"fmt"\n	"maps"\n	stdslices "slices"\n	"strings"\n	"sync"\n	"sync/atomic"\n')
body='''
type aliasTable map[string][]string

func (t aliasTable) edit(f func(name string, l []string) []string) aliasTable {
	next := make(aliasTable, len(t))
	for name, l := range t {
		if l = f(name, l); len(l) > 0 {
			next[name] = l
		}
	}
	return next
}

type gate struct {
	mu      sync.Mutex
	free    *sync.Cond
	readers int
	writer  bool
	waiting int
}

func (g *gate) rlock() {
	g.mu.Lock()
	for g.writer || g.waiting > 0 {
		g.free.Wait()
	}
	g.readers++
	g.mu.Unlock()
}

func (g *gate) runlock() {
	g.mu.Lock()
	g.readers--
	g.mu.Unlock()
	g.free.Broadcast()
}

func (g *gate) lock() {
	g.mu.Lock()
	g.waiting++
	for g.writer || g.readers > 0 {
		g.free.Wait()
	}
	g.waiting--
	g.writer = true
	g.mu.Unlock()
}

func (g *gate) unlock() {
	g.mu.Lock()
	g.writer = false
	g.mu.Unlock()
	g.free.Broadcast()
}

// IndexRepo handles a collection of indexes
type IndexRepo struct {
	gate
	indices      map[string]Index
	table        atomic.Pointer[aliasTable]
	indexBuilder Builder
}

func (h *IndexRepo) aliases() aliasTable { return *h.table.Load() }

func (h *IndexRepo) List() []string {
	h.rlock()
	defer h.runlock()
	return append(make([]string, 0), stdslices.Collect(maps.Keys(h.indices))...)
}

func (h *IndexRepo) Has(name string) bool {
	h.rlock()
	_, ok := h.indices[name]
	h.runlock()
	return ok
}

func (h *IndexRepo) HasAlias(name string) bool {
	_, ok := h.aliases()[name]
	return ok
}

func (h *IndexRepo) Alias(alias string, index string) bool {
	h.lock()
	defer h.unlock()
	if _, ok := h.indices[index]; !ok || stdslices.Contains(h.aliases()[alias], index) {
		return false
	}
	next := maps.Clone(h.aliases())
	next[alias] = append(stdslices.Clone(next[alias]), index)
	h.table.Store(&next)
	return true
}

func (h *IndexRepo) UnAlias(alias, index string) bool {
	h.lock()
	defer h.unlock()
	_, ok := h.aliases()[alias]
	if _, exists := h.indices[index]; !ok || (len(index) > 0 && !exists) {
		return false
	}
	next := h.aliases().edit(func(name string, l []string) []string {
		switch {
		case name != alias:
			return l
		case len(index) == 0:
			return nil
		}
		return stdslices.DeleteFunc(stdslices.Clone(l), func(x string) bool { return x == index })
	})
	h.table.Store(&next)
	return true
}

func (h *IndexRepo) Rename(old string, new string) bool {
	h.lock()
	defer h.unlock()
	index, ok := h.indices[old]
	if !ok {
		return false
	}
	if old == new {
		return true
	}
	delete(h.indices, old)
	h.indices[new] = index
	next := h.aliases().edit(func(_ string, l []string) []string {
		at := stdslices.Index(l, old)
		if at < 0 {
			return l
		}
		out := make([]string, 0, len(l))
	names:
		for _, n := range l {
			switch n {
			case new:
				continue names
			case old:
				n = new
			}
			out = append(out, n)
		}
		return out
	})
	h.table.Store(&next)
	return true
}

func (h *IndexRepo) resolve(name string) ([]Index, error) {
	if in, ok := h.indices[name]; ok {
		return []Index{in}, nil
	}
	l, ok := h.aliases()[name]
	if !ok {
		return nil, fmt.Errorf("index with name '%s' does not exist", name)
	}
	res := make([]Index, 0, len(l))
	for _, n := range l {
		res = append(res, h.indices[n])
	}
	return res, nil
}

func each[T, U any](in []T, f func(T) U) []U {
	out := make([]U, len(in))
	var wg sync.WaitGroup
	for i, x := range in {
		if i == len(in)-1 {
			out[i] = f(x)
			break
		}
		wg.Add(1)
		go func() {
			out[i] = f(x)
			wg.Done()
		}()
	}
	wg.Wait()
	return out
}

func (h *IndexRepo) Search(
	indexName string,
	terms string,
	engine Engine,
) (streams.ReadStream[SearchResult], error) {
	h.rlock()
	defer h.runlock()
	indices, err := h.resolve(indexName)
	if err != nil {
		return nil, err
	}
	var all slices.Slice[SearchResult]
	for _, part := range each(indices, func(in Index) slices.Slice[SearchResult] { return in.Search(terms, engine) }) {
		all = append(all, part...)
	}
	return streams.MemReader(all, nil), nil
}

func (h *IndexRepo) Put(indexName string, doc DocRequest) {
	h.lock()
	defer h.unlock()
	indices, err := h.resolve(indexName)
	if err != nil {
		h.indices[indexName] = h.indexBuilder(indexName)
		indices = []Index{h.indices[indexName]}
	}
	each(indices, func(in Index) struct{} { in.Put(doc); return struct{}{} })
}

func (h *IndexRepo) Drop(indexName string) bool {
	h.lock()
	defer h.unlock()
	if _, ok := h.indices[indexName]; !ok {
		return false
	}
	next := h.aliases().edit(func(_ string, l []string) []string {
		return stdslices.DeleteFunc(stdslices.Clone(l), func(x string) bool { return x == indexName })
	})
	h.table.Store(&next)
	delete(h.indices, indexName)
	return true
}

func (h *IndexRepo) ListAliases() AliasesResult {
	t := h.aliases()
	rows := make([]AliasesResultRow, 0, len(t))
	for _, k := range stdslices.Sorted(maps.Keys(t)) {
		rows = append(rows, AliasesResultRow{Alias: k, Indices: stdslices.Clone(t[k])})
	}
	return AliasesResult{Aliases: rows}
}

func (h *IndexRepo) String() string {
	h.rlock()
	defer h.runlock()
	var b strings.Builder
	for _, k := range stdslices.Sorted(maps.Keys(h.indices)) {
		fmt.Fprintln(&b, h.indices[k])
	}
	return b.String()
}

func NewIndexRepo(builder Builder) *IndexRepo {
	h := &IndexRepo{indices: make(map[string]Index), indexBuilder: builder}
	h.free = sync.NewCond(&h.mu)
	h.table.Store(&aliasTable{})
	return h
}
'''
open(p,'w').write(head+body)
