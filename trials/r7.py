#!/usr/bin/env python3
"""Behaviour-preserving rewrite 7: a pool of workers started with the repository,
mutexes by value, names resolved by one helper, deferred unlocks, early returns."""
import sys
d = sys.argv[1] + "/"


def sub(f, *pairs):
    s = open(d + f).read()
    for a, b in pairs:
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(d + f, "w").write(s)


sub("repos_repo.go",
    ("""	indicesMu *sync.RWMutex
""", """	indicesMu sync.RWMutex
"""),
    ("""	aliasesMu *sync.RWMutex
""", """	aliasesMu sync.RWMutex

	jobs chan func()
"""),
    ("""		indicesMu:    new(sync.RWMutex),
""", ""),
    ("""		aliasesMu:    new(sync.RWMutex),
""", ""),
    ("""	return &IndexRepo{
		indices: ""","""	h := &IndexRepo{
		jobs:         make(chan func()),
		indices: """),
    ("""		indexBuilder: builder,
	}
}""", """		indexBuilder: builder,
	}
	for i := 0; i < 3; i++ {
		go h.work()
	}
	return h
}

func (h *IndexRepo) work() {
	for job := range h.jobs {
		job()
	}
}

// each runs f for every index and waits for all of them.
func (h *IndexRepo) each(indices []Index, f func(i int, in Index)) {
	var wg sync.WaitGroup
	wg.Add(len(indices))
	for i, in := range indices {
		i, in := i, in
		h.jobs <- func() {
			defer wg.Done()
			f(i, in)
		}
	}
	wg.Wait()
}"""),
    ("""	wg.Add(len(indices))

	for i, index := range indices {
		go func(i int, idx Index) {
			defer wg.Done()
			results[i] = idx.Search(terms, engine)
		}(i, index)
	}
	wg.Wait()
""", """	h.each(indices, func(i int, in Index) { results[i] = in.Search(terms, engine) })
"""),
    ("""		wg      sync.WaitGroup
		result """, """		result """),
    ("""	var wg sync.WaitGroup
	wg.Add(len(indices))
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
	}
	wg.Wait()
	h.indicesMu.Unlock()
}""", """	h.each(indices, func(_ int, in Index) { in.Put(doc) })
	h.indicesMu.Unlock()
}"""))
