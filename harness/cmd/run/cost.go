package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/mailru/easyjson"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

// C01: work grows in proportion to the input. A family turns a size into a
// prepared call; what the call costs is counted in statements of the code under
// test executed (exact), bytes allocated (nearly so) and processor time (only
// when it is out of all proportion), at sizes growing by a factor of four.

type cost struct {
	points uint64
	bytes  uint64
	cpu    time.Duration
}

func threadCPU() time.Duration {
	var t syscall.Timespec
	_, _, _ = syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&t)), 0) // CLOCK_THREAD_CPUTIME_ID
	return time.Duration(t.Nano())
}

func covered() (n uint64) {
	for _, v := range vsched.Cov {
		n += uint64(v)
	}
	return n
}

func costOf(f func()) cost {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	p, t := covered(), threadCPU()
	f()
	d := threadCPU() - t
	q := covered()
	runtime.ReadMemStats(&b)
	return cost{q - p, b.TotalAlloc - a.TotalAlloc, d}
}

type family struct {
	name string
	make func(r *kit.Rand, n int) func()
	flat bool // the size is that of things the call has nothing to do with
}

// fill repeats parts up to n bytes.
func fill(n int, part func(i int) string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteString(part(i))
	}
	return b.String()
}

var longTexts = []struct {
	name string
	text func(r *kit.Rand, n int) string
}{
	{"different words", func(r *kit.Rand, n int) string {
		return fill(n, func(i int) string { return "pal" + kit.Itoa(i) + " " })
	}},
	{"one word again and again", func(r *kit.Rand, n int) string { return strings.Repeat("curso ", n/6) }},
	{"few words", func(r *kit.Rand, n int) string {
		return fill(n, func(i int) string { return kit.Spanish[i%17] + kit.Pick(r, []string{" ", ", ", "\n"}) })
	}},
	{"Spanish words", func(r *kit.Rand, n int) string {
		return fill(n, func(i int) string { return kit.Pick(r, kit.Spanish) + " " })
	}},
	{"one long word", func(r *kit.Rand, n int) string { return strings.Repeat("a", n) }},
	{"one long word of vowels and consonants", func(r *kit.Rand, n int) string { return strings.Repeat("ba", n/2) }},
	{"one long accented word", func(r *kit.Rand, n int) string { return strings.Repeat("áñ", n/4) }},
	{"one long word of endings", func(r *kit.Rand, n int) string { return strings.Repeat("amente", n/6) }},
	{"capitals", func(r *kit.Rand, n int) string { return strings.Repeat("CASA İÉ ", n/9) }},
	{"single letters", func(r *kit.Rand, n int) string { return strings.Repeat("a ", n/2) }},
	{"punctuation", func(r *kit.Rand, n int) string { return strings.Repeat("-. ", n/3) }},
	{"bytes that are no text", func(r *kit.Rand, n int) string { return strings.Repeat("\xffa\xc3", n/3) }},
	{"stop words", func(r *kit.Rand, n int) string {
		return fill(n, func(i int) string { return kit.StopList[i%len(kit.StopList)] + " " })
	}},
	{"words of growing length", func(r *kit.Rand, n int) string {
		return fill(n, func(i int) string { return strings.Repeat("ca", 1+i%40) + " " })
	}},
	{"emoji and letters", func(r *kit.Rand, n int) string { return strings.Repeat("x🙂", n/5) }},
	{"many ideographs", func(r *kit.Rand, n int) string { return strings.Repeat("日本語 ", n/10) }},
}

var sink any

func costFamilies() []family {
	var out []family
	add := func(name string, make func(r *kit.Rand, n int) func()) { out = append(out, family{name, make, false}) }
	flat := func(name string, make func(r *kit.Rand, n int) func()) { out = append(out, family{name, make, true}) }
	for _, t := range longTexts {
		text := t.text
		for _, an := range kit.Analyzers {
			add("analyze with "+an.Name+": "+t.name, func(r *kit.Rand, n int) func() {
				tok, s := an.Make(), text(r, n)
				return func() { sink = tok.Tokenize(s) }
			})
		}
		add("tokenize with predicates: "+t.name, func(r *kit.Rand, n int) func() {
			tok, s := visigoth.NewCleanTokenizer(func(r rune) bool { return r == 'a' }, func(r rune) bool { return r > 'm' }), text(r, n)
			return func() { sink = tok.Tokenize(s) }
		})
		add("word regions: "+t.name, func(r *kit.Rand, n int) func() {
			w := []byte(text(r, n))
			return func() { visigoth.R1R2RV(w) }
		})
		for _, an := range []kit.Analyzer{kit.Analyzers[0], kit.Analyzers[4]} {
			add("put into an empty index with "+an.Name+": "+t.name, func(r *kit.Rand, n int) func() {
				ix, s := visigoth.NewMemoryIndex("i", an.Make()), text(r, n)
				return func() { ix.Put(visigoth.NewDocRequest("d", s)) }
			})
			add("put into an index with "+an.Name+": "+t.name, func(r *kit.Rand, n int) func() {
				ix, s := visigoth.NewMemoryIndex("i", an.Make()), text(r, n)
				for k := 0; k < 4; k++ {
					ix.Put(visigoth.NewDocRequest("d", s))
				}
				return func() { ix.Put(visigoth.NewDocRequest("d", s)) }
			})
			for _, e := range engines[:2] {
				add(e.name+" search with "+an.Name+", query of "+t.name, func(r *kit.Rand, n int) func() {
					ix, s := visigoth.NewMemoryIndex("i", an.Make()), text(r, n)
					for k := 0; k < 3; k++ {
						ix.Put(visigoth.NewDocRequest("d", s))
						ix.Put(visigoth.NewDocRequest("e", "curso pal1 a"))
					}
					return func() { sink = ix.Search(s, e.fn) }
				})
			}
		}
		add("encode: "+t.name, func(r *kit.Rand, n int) func() {
			res := visigoth.SearchResult{Document: visigoth.NewDoc(text(r, n/3), text(r, n)), Hits: 3}
			return func() {
				b, err := res.MarshalJSON()
				sink = [2]any{b, err}
				b, err = json.Marshal(res)
				sink = [2]any{b, err}
				b, err = easyjson.Marshal(res)
				sink = [2]any{b, err}
			}
		})
		add("decode: "+t.name, func(r *kit.Rand, n int) func() {
			b, _ := json.Marshal(visigoth.SearchResult{Document: visigoth.NewDoc(text(r, n/3), text(r, n)), Hits: 3})
			return func() {
				var x, y, z visigoth.SearchResult
				_ = x.UnmarshalJSON(b)
				_ = json.Unmarshal(b, &y)
				_ = easyjson.Unmarshal(b, &z)
				sink = []visigoth.SearchResult{x, y, z}
			}
		})
		add("hash: "+t.name, func(r *kit.Rand, n int) func() {
			d := visigoth.NewDoc(text(r, n), "")
			return func() { sink = d.Hash() }
		})
	}
	for _, x := range []struct {
		name string
		text func(n int) string
	}{
		{"many unknown fields", func(n int) string {
			return "{" + fill(n, func(i int) string { return `"f` + kit.Itoa(i) + `":[1,{"a":null}],` }) + `"hits":1}`
		}},
		{"one unknown field, deep", func(n int) string {
			return `{"x":` + strings.Repeat("[", n/2) + strings.Repeat("]", n/2) + `,"hits":1}`
		}},
		{"objects in objects", func(n int) string {
			return `{"x":` + strings.Repeat(`{"y":`, n/6) + "1" + strings.Repeat("}", n/6) + `,"hits":1}`
		}},
		{"unclosed lists", func(n int) string { return `{"doc":` + strings.Repeat("[", n) }},
		{"a field again and again", func(n int) string { return "{" + strings.Repeat(`"doc":{"id":"a","raw":"b"},`, n/28) + `"hits":1}` }},
		{"escapes", func(n int) string { return `{"doc":{"raw":"` + strings.Repeat(`\u00e9\n`, n/8) + `"}}` }},
		{"half escapes", func(n int) string { return `{"doc":{"raw":"` + strings.Repeat(`\ud83d`, n/6) + `"}}` }},
		{"a long number", func(n int) string { return `{"hits":` + strings.Repeat("9", n) + `}` }},
		{"white space", func(n int) string { return strings.Repeat(" \n\t", n/3) + "{" + strings.Repeat(" ", n) + "}" }},
		{"an unclosed string", func(n int) string { return `{"doc":{"raw":"` + strings.Repeat(`a\\`, n/3) }},
		{"commas", func(n int) string { return `{` + strings.Repeat(",", n) + `}` }},
	} {
		add("decode "+x.name, func(r *kit.Rand, n int) func() {
			b := []byte(x.text(n))
			return func() {
				var x, y, z visigoth.SearchResult
				_ = x.UnmarshalJSON(b)
				_ = json.Unmarshal(b, &y)
				_ = easyjson.Unmarshal(b, &z)
				sink = []visigoth.SearchResult{x, y, z}
			}
		})
	}
	// indices of many documents
	build := func(n int) *visigoth.MemoryIndex {
		ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
		// made as a loaded index would be, so that making it costs nothing
		d := struct {
			Indexed  []visigoth.Doc   `json:"indexed"`
			Inverted map[string][]int `json:"inverted"`
		}{Inverted: map[string][]int{}}
		for i := 0; i < n; i++ {
			d.Indexed = append(d.Indexed, visigoth.NewDoc("d"+kit.Itoa(i%7), "all"))
			for _, w := range []string{"all", "m" + kit.Itoa(i%3), "t" + kit.Itoa(i/1000), "u" + kit.Itoa(i)} {
				d.Inverted[w] = append(d.Inverted[w], i)
			}
		}
		b, err := json.Marshal(d)
		if err == nil {
			err = json.Unmarshal(b, ix)
		}
		if err != nil {
			panic(err)
		}
		return ix
	}
	for _, q := range []string{"all", "m1", "m1 m2", "all m1", "m1 all all", "all all all all", "u3", "u3 all", "all t0 u3", "absent", "all absent", ""} {
		for _, e := range engines {
			add(fmt.Sprintf("%s search for %q, number of documents", e.name, q), func(r *kit.Rand, n int) func() {
				ix := build(n / 4)
				return func() { sink = ix.Search(q, e.fn) }
			})
		}
	}
	add("put, number of documents with other words", func(r *kit.Rand, n int) func() {
		ix := build(n / 4)
		return func() {
			for k := 0; k < n/100; k++ {
				ix.Put(visigoth.NewDocRequest("d", "new"+kit.Itoa(k)))
			}
		}
	})
	add("dump of an index", func(r *kit.Rand, n int) func() {
		ix := build(n / 8)
		return func() { sink = ix.String() }
	})
	add("JSON of an index", func(r *kit.Rand, n int) func() {
		ix := build(n / 8)
		return func() {
			b, _ := json.Marshal(ix)
			jx := visigoth.NewMemoryIndex("j", kit.SpaceTokenizer{})
			sink = json.Unmarshal(b, jx)
		}
	})
	for _, s := range []string{"equal", "sorted", "reversed", "random"} {
		add("sort "+s+" results", func(r *kit.Rand, n int) func() {
			rs := make(visigoth.SearchResults, n/8)
			for i := range rs {
				h := 0
				switch s {
				case "sorted":
					h = -i
				case "reversed":
					h = i
				case "random":
					h = r.IntN(1000)
				}
				rs[i] = visigoth.SearchResult{Document: visigoth.NewDoc("d"+kit.Itoa(i%100), ""), Hits: h}
			}
			return func() { sort.Sort(rs) }
		})
	}
	// repositories of many names
	wide := func(n int) *visigoth.IndexRepo { // one alias of all indices
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for i := 0; i < n/100; i++ {
			repo.Put("i"+kit.Itoa(i), visigoth.NewDocRequest("d"+kit.Itoa(i), "all u"+kit.Itoa(i)))
			repo.Alias("A", "i"+kit.Itoa(i))
		}
		return repo
	}
	many := func(n int) *visigoth.IndexRepo { // many aliases, each of two indices
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for _, i := range []string{"i0", "i1"} {
			repo.Put(i, visigoth.NewDocRequest("d", "all u"))
			for k := 0; k < n/40; k++ {
				repo.Alias("a"+kit.Itoa(k), i)
			}
		}
		return repo
	}
	for _, shape := range []struct {
		name string
		make func(n int) *visigoth.IndexRepo
	}{{"an alias of many indices", wide}, {"many aliases", many}} {
		for _, op := range []struct {
			name string
			do   func(repo *visigoth.IndexRepo)
		}{
			{"List", func(repo *visigoth.IndexRepo) { sink = repo.List() }},
			{"ListAliases", func(repo *visigoth.IndexRepo) { sink = repo.ListAliases() }},
			{"String", func(repo *visigoth.IndexRepo) { sink = repo.String() }},
			{"Has", func(repo *visigoth.IndexRepo) { sink = repo.Has("i1") || repo.HasAlias("a1") }},
			{"Alias", func(repo *visigoth.IndexRepo) { repo.Alias("A", "i1"); repo.Alias("new", "i1") }},
			{"UnAlias", func(repo *visigoth.IndexRepo) {
				repo.UnAlias("A", "i1")
				repo.UnAlias("a1", "i1")
				repo.UnAlias("A", "")
			}},
			{"Rename", func(repo *visigoth.IndexRepo) { repo.Rename("i1", "other"); repo.Rename("other", "i0") }},
			{"Drop", func(repo *visigoth.IndexRepo) { repo.Drop("i1"); repo.Drop("i0") }},
			{"Put", func(repo *visigoth.IndexRepo) {
				for _, name := range []string{"A", "a1", "i1", "fresh"} {
					repo.Put(name, visigoth.NewDocRequest("d", "all"))
				}
			}},
			{"Search", func(repo *visigoth.IndexRepo) {
				for _, name := range []string{"A", "a1", "i1", "absent"} {
					for _, e := range engines {
						s, err := repo.Search(name, "all", e.fn)
						sink = [2]any{s, err}
					}
				}
			}},
		} {
			add(op.name+" with "+shape.name, func(r *kit.Rand, n int) func() {
				repo := shape.make(n)
				return func() { op.do(repo) }
			})
		}
	}
	// what a call has nothing to do with
	doc := visigoth.NewDocRequest("d", "all fresh words")
	for _, q := range []string{"u3", "t0", "absent", "u3 t0", ""} {
		for _, e := range engines {
			flat(fmt.Sprintf("%s search for %q, number of other words", e.name, q), func(r *kit.Rand, n int) func() {
				ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
				ix.Put(visigoth.NewDocRequest("a", fill(n, func(i int) string { return "u" + kit.Itoa(i) + " " })))
				ix.Put(visigoth.NewDocRequest("b", fill(n, func(i int) string { return "t" + kit.Itoa(i) + " " })))
				return func() { sink = ix.Search(q, e.fn) }
			})
		}
	}
	flat("put, number of documents with other words", func(r *kit.Rand, n int) func() {
		ix := build(n / 4)
		return func() { ix.Put(visigoth.NewDocRequest("d1", "brand new words")) }
	})
	flat("put, number of documents with the same words", func(r *kit.Rand, n int) func() {
		ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
		for i := 0; i < n/4; i++ {
			ix.Put(visigoth.NewDocRequest("d", "all fresh words u"+kit.Itoa(i)))
		}
		return func() { ix.Put(doc) }
	})
	add("puts of documents that share words", func(r *kit.Rand, n int) func() {
		ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
		return func() {
			for i := 0; i < n/10; i++ {
				ix.Put(doc)
			}
		}
	})
	add("puts through an alias of documents that share words", func(r *kit.Rand, n int) func() {
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for i := 0; i < 3; i++ {
			repo.Put("i"+kit.Itoa(i), doc)
			repo.Alias("x", "i"+kit.Itoa(i))
		}
		return func() {
			for i := 0; i < n/40; i++ {
				repo.Put("x", doc)
			}
		}
	})
	flat("put, length of the content beside the statement", func(r *kit.Rand, n int) func() {
		ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
		d := visigoth.NewDocRequestWith(strings.Repeat("n", n), strings.Repeat("c ", n), "some words")
		return func() { ix.Put(d) }
	})
	flat("stop words, number of them", func(r *kit.Rand, n int) func() {
		sw := visigoth.StopWords{}
		for i := 0; i < n/8; i++ {
			sw["s"+kit.Itoa(i)] = struct{}{}
		}
		f := visigoth.NewStopWordsFilter(sw)
		toks := []string{"s1", "none", "s2", "s", ""}
		return func() { sink = f.Filter(toks) }
	})
	for _, shape := range []struct {
		name string
		make func(n int) *visigoth.IndexRepo
	}{{"an alias of many indices", wide}, {"many aliases", many}, {"indices of many documents", func(n int) *visigoth.IndexRepo {
		repo := visigoth.NewIndexRepo(func(string) visigoth.Index { return build(n / 8) })
		repo.Put("i0", doc)
		repo.Put("i1", doc)
		repo.Alias("a0", "i0")
		return repo
	}}, {"many indices", func(n int) *visigoth.IndexRepo {
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for i := 0; i < n/8; i++ {
			repo.Put("i"+kit.Itoa(i), doc)
		}
		repo.Alias("a0", "i0")
		return repo
	}}} {
		for _, op := range []struct {
			name string
			do   func(repo *visigoth.IndexRepo)
		}{
			{"Has", func(repo *visigoth.IndexRepo) { sink = repo.Has("i1") || repo.Has("absent") }},
			{"HasAlias", func(repo *visigoth.IndexRepo) {
				sink = repo.HasAlias("A") || repo.HasAlias("a1") || repo.HasAlias("absent")
			}},
			{"Put", func(repo *visigoth.IndexRepo) { repo.Put("i1", visigoth.NewDocRequest("d", "brand new words")) }},
			{"Puts", func(repo *visigoth.IndexRepo) {
				for i := 0; i < 24; i++ {
					repo.Put("i"+kit.Itoa(i*7), doc)
				}
			}},
			{"Puts by alias", func(repo *visigoth.IndexRepo) { repo.Put("a0", doc); repo.Put("fresh", doc) }},
			{"Rename, Drop", func(repo *visigoth.IndexRepo) {
				repo.Rename("i1", "fresh")
				repo.Rename("absent", "i1")
				repo.Drop("fresh")
				repo.Drop("absent")
			}},
			{"Search", func(repo *visigoth.IndexRepo) {
				s, err := repo.Search("i1", "absent", visigoth.LinearSearch)
				sink = [2]any{s, err}
				s, err = repo.Search("absent", "all", visigoth.HitsSearch)
				sink = [2]any{s, err}
			}},
			{"Alias", func(repo *visigoth.IndexRepo) { repo.Alias("fresh", "i1"); repo.Alias("fresh", "absent") }},
			{"UnAlias", func(repo *visigoth.IndexRepo) {
				repo.UnAlias("fresh", "")
				repo.UnAlias("A", "absent")
				repo.UnAlias("absent", "i1")
			}},
		} {
			if op.name == "Rename, Drop" && shape.name != "many indices" {
				continue // looks through the aliases
			}
			if strings.HasPrefix(op.name, "Puts") && shape.name == "indices of many documents" {
				continue // makes more of them
			}
			flat(op.name+", beside "+shape.name, func(r *kit.Rand, n int) func() {
				repo := shape.make(n)
				return func() { op.do(repo) }
			})
		}
	}
	return out
}

// measure is the least of several measurements of a family at a size.
func measure(f family, seed uint64, n, reps int, d *kit.Dict) (best cost) {
	for j := 0; j < reps; j++ {
		x := costOf(f.make(kit.NewRand(seed, 0, d), n))
		sink = nil
		if j == 0 {
			best = x
		}
		best.points = min(best.points, x.points)
		best.bytes = min(best.bytes, x.bytes)
		best.cpu = min(best.cpu, x.cpu)
	}
	return best
}

// outgrown says how the cost b of sixteen times the input is out of proportion
// to a. Processor time below some milliseconds says nothing.
func outgrown(flat bool, a, b cost) string {
	switch {
	case flat && b.points > 3*a.points+3000:
		return fmt.Sprintf("%d statements executed, then %d", a.points, b.points)
	case flat && b.cpu > 15*time.Millisecond && b.cpu > 10*a.cpu:
		return fmt.Sprintf("%v of processor time, then %v", a.cpu, b.cpu)
	case b.points > 200_000 && b.points > 48*a.points:
		return fmt.Sprintf("%d statements executed, then %d", a.points, b.points)
	case b.bytes > 8<<20 && b.bytes > 80*max(a.bytes, 16<<10):
		return fmt.Sprintf("%d bytes allocated, then %d", a.bytes, b.bytes)
	case b.cpu > 400*time.Millisecond && b.cpu > 80*max(a.cpu, 3*time.Millisecond):
		return fmt.Sprintf("%v of processor time, then %v", a.cpu, b.cpu)
	}
	return ""
}

func c01(c *kit.Ctx) {
	fams := costFamilies()
	sizes := []int{4000, 16_000, 64_000, 256_000}
	if c.Thorough() {
		sizes = append(sizes, 1_024_000)
	}
	c.Cases("families", 0, len(fams)*c.N(1, 3), func(r *kit.Rand, i int) {
		f := fams[i%len(fams)]
		seed := r.Uint64()
		var got []cost
		for k, n := range sizes {
			c.Op("%s at size %d", f.name, n)
			got = append(got, measure(f, seed, n, 1, c.Dict))
			c.Tick()
			c.Eval(1)
			c.Max("statements in one call", int64(got[k].points))
			c.Max("KB allocated in one call", int64(got[k].bytes>>10))
			c.Max("ms of processor time in one call", got[k].cpu.Milliseconds())
			if k < 2 || outgrown(f.flat, got[k-2], got[k]) == "" {
				continue
			}
			// again, as a measurement can be off but not three times in a row
			a, b := measure(f, seed, sizes[k-2], 4, c.Dict), measure(f, seed, n, 2, c.Dict)
			if bad := outgrown(f.flat, a, b); bad != "" {
				wit := map[string]any{"family": f.name, "sizes": sizes[:k+1], "costs": fmt.Sprintf("%+v", got)}
				if f.flat {
					c.Fail(wit, "%s: the call takes more work the more there is that it has nothing to do with (%s)", f.name, bad)
				}
				c.Fail(wit, "%s: sixteen times the input takes far more than sixteen times the work (%s)", f.name, bad)
			}
		}
		c.Nontrivial(kit.Hash(f.name, seed))
		if c.WantSample() {
			c.Sample(map[string]any{"family": f.name, "sizes": sizes, "costs": fmt.Sprintf("%+v", got)})
		}
	})
}

func init() { props["C01"] = c01 }
