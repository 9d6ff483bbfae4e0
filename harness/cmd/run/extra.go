package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"weak"

	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

func init() {
	props["S07"] = s07
	props["S08"] = s08
	props["R09"] = r09
	props["R10"] = r10
	props["X07"] = x07
}

// ---- S07: engines on any index view -------------------------------------------

// fakeView is a faithful Indexer that owns the lists it hands out and watches
// what becomes of them.
type fakeView struct {
	docs  []flat
	words map[string][]int // with spare capacity holding a sentinel
	copyP map[string][]int
	style int // 0 shares its lists, 1 copies, 2 returns empty lists instead of nil
	bad   string
	asks  int
}

const sentinel = -77

func (v *fakeView) Len() int { return len(v.docs) }

func (v *fakeView) Document(i int) visigoth.Doc {
	v.asks++
	if i < 0 || i >= len(v.docs) {
		if v.bad == "" {
			v.bad = fmt.Sprintf("position %d asked for, of %d", i, len(v.docs))
		}
		return visigoth.Doc{}
	}
	return visigoth.NewDoc(v.docs[i].Name, v.docs[i].Content)
}

func (v *fakeView) Indexed(w string) []int {
	v.asks++
	l, ok := v.words[w]
	if !ok {
		if v.style == 2 {
			return []int{}
		}
		return nil
	}
	if v.style == 1 {
		return append([]int{}, l...)
	}
	return l
}

func (v *fakeView) intact() string {
	for w, l := range v.words {
		want := v.copyP[w]
		full := l[:cap(l)]
		for i := range full {
			x := sentinel
			if i < len(want) {
				x = want[i]
			}
			if full[i] != x {
				return fmt.Sprintf("the position list of %q was modified at %d", w, i)
			}
		}
	}
	return ""
}

func s07(c *kit.Ctx) {
	one := func(r *kit.Rand, docs, words, qlen int) {
		v := &fakeView{words: map[string][]int{}, copyP: map[string][]int{}, style: r.IntN(3)}
		for i := 0; i < docs; i++ {
			v.docs = append(v.docs, flat{Name: "n" + kit.Itoa(i%(1+r.IntN(9))), Content: "c" + kit.Itoa(i)})
		}
		var vocab []string
		for k := 0; k < words; k++ {
			w := "w" + kit.Itoa(k)
			if k == 0 && r.P(0.2) {
				w = ""
			} else if r.P(0.1) {
				w = r.Token()
			}
			if _, ok := v.words[w]; ok {
				continue
			}
			p := Pick(r, []float64{0.02, 0.3, 0.7, 1})
			var l []int
			switch r.IntN(4) {
			case 0: // a dense run
				if docs > 0 {
					a := r.IntN(docs)
					for i := a; i < docs && len(l) < r.Size(1, 300); i++ {
						l = append(l, i)
					}
				}
			case 1: // a few
				for i := 0; i < docs; i++ {
					if r.IntN(docs) < 3 {
						l = append(l, i)
					}
				}
			default:
				for i := 0; i < docs; i++ {
					if r.P(p) {
						l = append(l, i)
					}
				}
			}
			vocab = append(vocab, w)
			if len(l) == 0 && r.P(0.7) {
				continue
			}
			full := make([]int, len(l)+r.IntN(4))
			copy(full, l)
			for i := len(l); i < len(full); i++ {
				full[i] = sentinel
			}
			v.words[w], v.copyP[w] = full[:len(l)], append([]int{}, l...)
		}
		for q := 0; q < 6; q++ {
			n := r.Size(0, qlen)
			toks := make([]string, 0, n+3)
			common := len(vocab) > 0 && r.P(0.5)
			for len(toks) < n {
				w := "absent"
				if len(vocab) > 0 && (common || r.P(0.95)) {
					w = Pick(r, vocab)
				}
				if common && len(v.copyP[w]) < docs/3 && r.P(0.9) {
					w = vocab[0]
				}
				toks = append(toks, w)
			}
			spare := toks[:cap(toks)]
			for i := n; i < len(spare); i++ {
				spare[i] = "spare"
			}
			keep := append([]string{}, toks...)
			var match []int
			if n > 0 {
				for i := 0; i < docs; i++ {
					ok := true
					for _, w := range keep {
						l := v.copyP[w]
						j := sort.SearchInts(l, i)
						if j == len(l) || l[j] != i {
							ok = false
							break
						}
					}
					if ok {
						match = append(match, i)
					}
				}
			}
			if len(match) > 0 {
				c.Count("queries with matches", 1)
			}
			wit := func(extra any) any {
				return map[string]any{"words": keep, "positions": v.copyP, "documents": docs, "detail": fmt.Sprint(extra)}
			}
			var results0 []results
			for _, e := range engines {
				var want []flat
				switch e.name {
				case "all":
					for _, d := range v.docs {
						want = append(want, flat{d.Name, d.Content, 0})
					}
				case "hits", "linear":
					h := n
					if e.name == "hits" {
						h = len(kit.Uniq(keep))
					}
					for _, i := range match {
						want = append(want, flat{v.docs[i].Name, v.docs[i].Content, h})
					}
				}
				rs := e.fn(toks, v)
				results0 = append(results0, rs)
				c.Eval(1)
				c.Count("engine calls", 1)
				if got := flatten(rs); !sameSeq(got, want) {
					c.Fail(wit("got "+show(got)+"; want "+show(want)), "the %s engine on a user-supplied index answers wrongly for %d words", e.name, n)
				}
				if v.bad != "" {
					c.Fail(wit(v.bad), "the %s engine asks for a position that does not exist", e.name)
				}
				if !eqStrings(toks, keep) {
					c.Fail(wit(toks), "the %s engine modifies the word list it is given", e.name)
				}
				for i := n; i < len(spare); i++ {
					if spare[i] != "spare" {
						c.Fail(wit(spare), "the %s engine writes behind the word list it is given", e.name)
					}
				}
				if bad := v.intact(); bad != "" {
					c.Fail(wit(bad), "the %s engine modifies a position list it is given", e.name)
				}
			}
			if q == 0 && v.style != 1 { // once more with lists that cannot be written
				var wall kit.Wall
				ro := &fakeView{docs: v.docs, words: map[string][]int{}, style: v.style}
				walls := map[string]*kit.Wall{}
				for _, w := range keep {
					if l, ok := v.copyP[w]; ok && walls[w] == nil && len(walls) < 12 {
						walls[w] = &kit.Wall{}
						ro.words[w] = walls[w].Ints(l)
					} else if ok && walls[w] == nil {
						ro.words[w] = l
					}
				}
				list := wall.Strings(keep)
				for k, e := range engines {
					if got, want := flatten(e.fn(list, ro)), flatten(results0[k]); !sameSeq(got, want) {
						c.Fail(wit("got "+show(got)+"; want "+show(want)), "the %s engine answers differently when its lists lie in read-only memory", e.name)
					}
				}
				c.Count("engine calls on read-only lists", int64(len(engines)))
				wall.Free()
				for _, w := range walls {
					w.Free()
				}
			}
			for k, rs := range results0 { // overwriting one answer must not reach the index
				for i := range rs {
					rs[i].Hits = -9
				}
				if bad := v.intact(); bad != "" {
					c.Fail(wit(bad), "overwriting the results of engine %s changes the index", engines[k].name)
				}
			}
		}
		c.Max("documents", int64(docs))
		c.Max("asks", int64(v.asks))
		c.Nontrivial(kit.Hash(fmt.Sprint(v.copyP), docs))
		if c.WantSample() && docs < 8 {
			c.Sample(map[string]any{"documents": docs, "positions": v.copyP})
		}
	}
	c.Cases("views", 0, c.N(6000, 200_000), func(r *kit.Rand, i int) { one(r, r.Size(0, 60), r.Size(0, 12), 8) })
	c.Cases("large", 1_000_000, c.N(300, 12_000), func(r *kit.Rand, i int) { one(r, r.Size(60, 2200), r.Size(1, 40), 40) })
	c.Cases("many words", 2_000_000, c.N(120, 5000), func(r *kit.Rand, i int) { one(r, r.Size(1, 80), r.Size(20, 400), 1200) })
	// so many words that counts leave 15 and 16 bits
	long := append(c.Dict.NewSizes(1200, 120_000), 33_000, 70_000)
	c.Cases("very many words", 3_000_000, len(long), func(r *kit.Rand, i int) {
		n := long[i]
		v := &fakeView{words: map[string][]int{}, copyP: map[string][]int{}, style: r.IntN(3)}
		v.docs = []flat{{"a", "0", 0}, {"b", "1", 0}, {"c", "2", 0}}
		toks := make([]string, 0, n+n/9)
		for k := 0; k < n; k++ {
			w := "w" + kit.Itoa(k)
			toks = append(toks, w)
			if k%9 == 0 {
				toks = append(toks, w)
			}
			v.words[w] = []int{0, 2}
			if k == n/2 {
				v.words[w] = []int{2}
			}
		}
		for _, e := range engines[:2] {
			c.Tick()
			hits := n
			if e.name == "linear" {
				hits = len(toks)
			}
			got, want := flatten(e.fn(toks, v)), []flat{{"c", "2", hits}}
			c.Eval(1)
			if !sameSeq(got, want) {
				c.Fail(map[string]any{"got": show(got), "want": show(want)}, "the %s engine on a user-supplied index answers wrongly for %d words", e.name, len(toks))
			}
		}
		c.Max("words in a query", int64(len(toks)))
		c.Nontrivial(uint64(n))
	})
}

// ---- S08: order of result lists, document keys ---------------------------------

func s08(c *kit.Ctx) {
	c.Cases("sorting", 0, c.N(20_000, 600_000), func(r *kit.Rand, i int) {
		n := r.Size(0, 40)
		if i%50 == 0 {
			n = r.Size(40, 2200)
		}
		vals := Pick(r, [][]int{{0, 1}, {1, 2, 3}, {-1, 0, 1}, {1 << 62, -1 << 63, 1<<63 - 1, 0}})
		l := make(visigoth.SearchResults, n)
		for k := range l {
			name := r.Name(1 + r.IntN(12))
			if r.P(0.2) {
				name = r.Bytes(2)
			}
			h := Pick(r, vals)
			if r.P(0.2) {
				h = r.IntN(2000) - 1000
			}
			l[k] = visigoth.SearchResult{Document: visigoth.NewDoc(name, "c"+kit.Itoa(k)), Hits: h}
		}
		orig := append(visigoth.SearchResults{}, l...)
		want := append(visigoth.SearchResults{}, l...)
		sort.SliceStable(want, func(a, b int) bool {
			if want[a].Hits != want[b].Hits {
				return want[a].Hits > want[b].Hits
			}
			return want[a].Document.Name < want[b].Document.Name
		})
		wit := func() any {
			return map[string]any{"list": show(flatten(results(orig))), "sorted": show(flatten(results(l)))}
		}
		if l.Len() != n {
			c.Fail(wit(), "a result list of %d reports %d", n, l.Len())
		}
		how := r.IntN(3)
		switch how {
		case 0:
			sort.Stable(l)
		case 1:
			sort.Sort(l)
		case 2:
			sort.Sort(sort.Reverse(l))
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				l[a], l[b] = l[b], l[a]
			}
		}
		c.Eval(1)
		seen := map[string]int{}
		for k := range want {
			if l[k].Hits != want[k].Hits || l[k].Document.Name != want[k].Document.Name {
				c.Fail(wit(), "a sorted result list has %d hits of %q at place %d, want %d hits of %q", l[k].Hits, l[k].Document.Name, k, want[k].Hits, want[k].Document.Name)
			}
			if how == 0 && l[k].Document.Content != want[k].Document.Content {
				c.Fail(wit(), "a stable sort changes the order of equal results")
			}
			seen[l[k].Document.Content]++
		}
		for k := range orig {
			if seen["c"+kit.Itoa(k)] != 1 {
				c.Fail(wit(), "sorting loses or repeats a result")
			}
		}
		if n > 0 {
			a, b := r.IntN(n), r.IntN(n)
			x, y := orig[a], orig[b]
			less := x.Hits > y.Hits || x.Hits == y.Hits && x.Document.Name < y.Document.Name
			if orig.Less(a, b) != less {
				c.Fail(wit(), "results %d and %d compare wrongly", a, b)
			}
			orig.Swap(a, b)
			if orig[a] != y || orig[b] != x {
				c.Fail(wit(), "swapping two results does not swap them")
			}
		}
		c.Nontrivial(kit.Hash(show(flatten(results(l))), n))
		if c.WantSample() && n > 2 && n < 9 {
			c.Sample(wit())
		}
	})
	c.Cases("long names", 2_000_000, c.N(160, 8000), func(r *kit.Rand, i int) {
		// with a beginning in common of about a power of two, or a size in the code
		n := 1<<(4+r.IntN(14)) + r.IntN(5) - 2
		if l := c.Dict.NewSizes(8, 1<<20); len(l) > 0 && i%2 == 0 {
			n = Pick(r, l)
		}
		begin := strings.Repeat(Pick(r, []string{"p", "né", "ab", "\xff"}), n+4)[:n+r.IntN(4)]
		l := make(visigoth.SearchResults, 2+r.IntN(8))
		for k := range l {
			name := begin[:len(begin)-r.IntN(3)]
			if r.P(0.8) {
				name = begin + r.Bytes(3) + begin[:r.IntN(3)]
			}
			l[k] = visigoth.SearchResult{Document: visigoth.NewDoc(name, ""), Hits: r.IntN(2)}
		}
		for a := range l {
			for b := range l {
				x, y := l[a], l[b]
				c.Eval(1)
				if l.Less(a, b) != (x.Hits > y.Hits || x.Hits == y.Hits && x.Document.Name < y.Document.Name) {
					c.Fail(nil, "two results with names of %d and %d bytes, the first %d of them the same, compare wrongly", len(x.Document.Name), len(y.Document.Name), n)
				}
			}
		}
		sort.Sort(l)
		for k := 1; k < len(l); k++ {
			if l[k-1].Hits < l[k].Hits || l[k-1].Hits == l[k].Hits && l[k-1].Document.Name > l[k].Document.Name {
				c.Fail(nil, "results with names of about %d bytes are sorted wrongly", n)
			}
		}
		c.Nontrivial(kit.Hash(n, len(l), i))
	})
	c.Cases("keys", 1_000_000, c.N(4000, 100_000), func(r *kit.Rand, i int) {
		keys := map[visigoth.HashKey]string{}
		var names []string
		for k := r.Size(1, 60); k > 0; k-- {
			n := r.Bytes(1 + r.IntN(6))
			switch r.IntN(6) {
			case 0:
				n = r.Name(20)
			case 1:
				n = strings.Repeat(Pick(r, []string{"a", "\x00", "é", "ab"}), r.Size(0, 600))
			case 2:
				if len(names) > 0 {
					n = Pick(r, names) + Pick(r, []string{"\x00", " ", "a", "1"})
				}
			case 3:
				if b := []byte(Pick(r, append(names, "xy"))); len(b) > 1 { // two letters exchanged
					p := r.IntN(len(b) - 1)
					b[p], b[p+1] = b[p+1], b[p]
					n = string(b)
				}
			case 4:
				if b := []byte(Pick(r, append(names, "xy"))); len(b) > 0 { // a bit turned
					b[r.IntN(len(b))] ^= 1 << r.IntN(8)
					n = string(b)
				}
			}
			names = append(names, n)
		}
		for k := r.IntN(6); k > 0; k-- { // one digest, or the same parts in another order
			a, b := r.Twins()
			n := Pick(r, names)
			at := r.IntN(len(n) + 1)
			names = append(names, a, b, n[at:]+n[:at])
			if w := Pick(r, []int{1, 2, 4, 8, 16, 32}); len(n) >= 2*w {
				p := r.IntN(len(n)/w - 1)
				names = append(names, n[:p*w]+n[(p+1)*w:(p+2)*w]+n[p*w:(p+1)*w]+n[(p+2)*w:])
			}
		}
		for _, n := range names {
			k := visigoth.NewDoc(n, r.Bytes(2)).Hash()
			c.Eval(1)
			if old, ok := keys[k]; ok && old != n {
				c.Fail(map[string]any{"one": old, "other": n}, "documents of different names have the same key")
			}
			keys[k] = n
			for j := 0; j < 2; j++ {
				var d visigoth.Hashable = visigoth.Doc{Name: strings.Clone(n), Content: r.Bytes(3)}
				if d.Hash() != k {
					c.Fail(map[string]any{"name": n}, "two documents of the same name have different keys")
				}
			}
		}
		c.Count("names hashed", int64(len(names)))
		c.Nontrivial(kit.Hash(fmt.Sprintf("%q", names)))
	})
}

// ---- R09: textual dumps ---------------------------------------------------------

// alnumRuns splits a line into runs of letters and digits.
func alnumRuns(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
	})
}

// tails end the words of the dumps, to see whether they get there unharmed.
var tails = []string{"", "", "%d", "%s", "", "%", "%%x", "]", "=", "[token", ",é", "", "\\n", "\"'", "{}", "<b>", "%v%v%v", "\x00", "_", "-", "..."}

// readDump collects, per word of the form zqXwN (marked by its prefix, its tail
// left off), the numbers standing behind it on its line, in all lines it is on.
func readDump(dump string) map[string][][]int {
	out := map[string][][]int{}
	for _, line := range strings.Split(dump, "\n") {
		word := ""
		var nums []int
		for _, f := range alnumRuns(line) {
			if strings.HasPrefix(f, "zq") {
				word = f
				nums = nil
				continue
			}
			if n, err := strconv.Atoi(f); err == nil {
				nums = append(nums, n)
			}
		}
		if word != "" {
			out[word] = append(out[word], nums)
		}
	}
	return out
}

func compareDump(dump string, want map[string][]int) string {
	got := readDump(dump)
	heads := map[string][]int{}
	for w, l := range want {
		heads[alnumRuns(w)[0]] = l
	}
	want = heads
	for w, l := range want {
		g := got[w]
		if len(g) != 1 {
			return fmt.Sprintf("word %s is shown %d times, want once", w, len(g))
		}
		if len(g[0]) != len(l)+1 || g[0][0] != len(l) {
			return fmt.Sprintf("word %s is shown with %v, want its %d positions %v after their number", w, clipInts(g[0]), len(l), clipInts(l))
		}
		for i := range l {
			if g[0][i+1] != l[i] {
				return fmt.Sprintf("word %s is shown at %v, want %v", w, clipInts(g[0][1:]), clipInts(l))
			}
		}
	}
	for w := range got {
		if _, ok := want[w]; !ok {
			return fmt.Sprintf("word %s is shown, which no document holds", w)
		}
	}
	return ""
}

func clipInts(l []int) string {
	if len(l) > 30 {
		return fmt.Sprintf("%v... (%d)", l[:30], len(l))
	}
	return fmt.Sprint(l)
}

func r09(c *kit.Ctx) {
	one := func(r *kit.Rand, nops int) {
		names := universe(r)
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		single := visigoth.NewMemoryIndex("single", kit.SpaceTokenizer{})
		swords, sn := map[string][]int{}, 0
		// the model: per index its words' positions; words carry the index's number,
		// so that equal words of different indices are told apart; a document put
		// through an alias carries the words of its own put
		type mix struct {
			words map[string][]int
			n     int
		}
		idx := map[string]*mix{}
		als := map[string][]string{}
		var log []string
		made, puts := 0, 0
		mark := map[*mix]int{}
		for k := 0; k < nops; k++ {
			n, m := Pick(r, names), Pick(r, names)
			what := ""
			switch x := r.IntN(12); {
			case x < 6:
				l := []string{n}
				if idx[n] == nil {
					l = als[n]
				}
				if len(l) == 0 {
					made++
					idx[n] = &mix{words: map[string][]int{}}
					mark[idx[n]] = made
					l = []string{n}
				}
				puts++
				var ws []string
				if len(l) == 1 { // words shared by the documents of this index
					for j := r.Size(0, 12); j > 0; j-- {
						n := r.IntN(r.Size(1, 40))
						ws = append(ws, fmt.Sprintf("zqi%dw%d", mark[idx[l[0]]], n)+tails[n%len(tails)])
					}
				} // a word in several indices would be shown once for each: not through aliases
				text := strings.Join(ws, " ")
				for _, y := range l {
					ix := idx[y]
					for _, w := range kit.Uniq(ws) {
						ix.words[w] = append(ix.words[w], ix.n)
					}
					ix.n++
				}
				what = fmt.Sprintf("Put(%q, %q)", n, text)
				repo.Put(n, visigoth.NewDocRequest("d"+kit.Itoa(puts), text))
				if r.P(0.3) {
					for _, w := range kit.Uniq(ws) {
						swords[w] = append(swords[w], sn)
					}
					sn++
					single.Put(visigoth.NewDocRequest("d", text))
				}
			case x < 8:
				what = fmt.Sprintf("Rename(%q, %q)", n, m)
				repo.Rename(n, m)
				if idx[n] != nil && n != m {
					idx[m] = idx[n]
					delete(idx, n)
					for a, l := range als {
						if has(l, n) {
							als[a] = with(without(l, n), m)
						}
					}
				}
			case x < 10:
				what = fmt.Sprintf("Alias(%q, %q)", n, m)
				repo.Alias(n, m)
				if idx[m] != nil {
					als[n] = with(als[n], m)
				}
			case x < 11:
				what = fmt.Sprintf("Drop(%q)", n)
				repo.Drop(n)
				if idx[n] != nil {
					delete(idx, n)
					for a, l := range als {
						als[a] = without(l, n)
					}
				}
			default:
				what = fmt.Sprintf("Search(%q)", n)
				_, _ = repo.Search(n, "zqi1w1", visigoth.HitsSearch)
			}
			log = append(log, what)
			c.Op("%s", what)
			if r.P(0.3) || k == nops-1 {
				want := map[string][]int{}
				for _, ix := range idx {
					for w, l := range ix.words {
						want[w] = l
					}
				}
				c.Eval(2)
				c.Count("words compared", int64(len(want)+len(swords)))
				if bad := compareDump(repo.String(), want); bad != "" {
					c.Fail(map[string]any{"operations": log, "dump": kit.Clip(repo.String())}, "the repository's dump: %s", bad)
				}
				if bad := compareDump(single.String(), swords); bad != "" {
					c.Fail(map[string]any{"operations": log, "dump": kit.Clip(single.String())}, "the index's dump: %s", bad)
				}
			}
		}
		c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
		if c.WantSample() && nops < 8 && nops > 3 {
			c.Sample(map[string]any{"operations": log, "dump": repo.String()})
		}
	}
	c.Cases("large index", 2_000_000, c.N(40, 2000), func(r *kit.Rand, i int) {
		ix := visigoth.NewMemoryIndex("large", kit.SpaceTokenizer{})
		repo := visigoth.NewIndexRepo(func(string) visigoth.Index { return ix })
		want := map[string][]int{}
		n, w := r.Size(100, 3000), r.Size(1, 12)
		for k := 0; k < n; k++ {
			var ws []string
			for j := 0; j < w; j++ {
				if j == 0 || r.P(0.5) {
					ws = append(ws, "zqi0w"+kit.Itoa(j))
					want[ws[len(ws)-1]] = append(want[ws[len(ws)-1]], k)
				}
			}
			repo.Put("large", visigoth.NewDocRequest("d", strings.Join(ws, " ")))
		}
		c.Op("dump of %d documents", n)
		c.Eval(2)
		for _, d := range []string{ix.String(), repo.String()} {
			if bad := compareDump(d, want); bad != "" {
				c.Fail(map[string]any{"documents": n, "words": w, "dump": kit.Clip(d)}, "the dump of an index of %d documents: %s", n, bad)
			}
		}
		c.Nontrivial(kit.Hash("large", n, w, i))
	})
	c.Cases("sequences", 0, c.N(8000, 300_000), func(r *kit.Rand, i int) { one(r, r.Size(1, 60)) })
	c.Cases("long sequences", 1_000_000, c.N(60, 3000), func(r *kit.Rand, i int) { one(r, r.Size(60, 1200)) })
}

// ---- R10: dropped indices are released --------------------------------------------

// watched is a document content whose collection can be observed.
type watched struct {
	id int
	w  weak.Pointer[byte]
}

//go:noinline
func putWatched(repo *visigoth.IndexRepo, name string, id int, size int, style int) watched {
	b := make([]byte, 0, size+40)
	b = append(b, "alpha beta doc"...)
	b = strconv.AppendInt(b, int64(id), 10)
	b = append(b, ' ')
	for len(b) < size {
		b = append(b, "lorem "...)
	}
	s := string(b)
	w := watched{id, weak.Make(unsafe.StringData(s))}
	switch style {
	case 0:
		repo.Put(name, visigoth.NewDocRequest("n"+kit.Itoa(id), s))
	case 1:
		repo.Put(name, visigoth.NewDocRequestWith("n"+kit.Itoa(id), s, "alpha beta doc"+kit.Itoa(id)))
	case 2:
		repo.Put(name, visigoth.NewDocRequestWithMime(s, "alpha", visigoth.MimeText))
	}
	return w
}

// tracked wraps an index so that its release can be observed.
type tracked struct {
	*visigoth.MemoryIndex
	pad [64]byte
}

//go:noinline
func gcAll() {
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
}

func heap() int64 {
	gcAll()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func r10(c *kit.Ctx) {
	c.Cases("released", 0, c.N(400, 12_000), func(r *kit.Rand, i int) {
		names := universe(r)
		type box struct {
			w    weak.Pointer[tracked]
			docs []int
		}
		var built []*box
		var last *box
		mk := func(name string) visigoth.Index {
			t := &tracked{MemoryIndex: visigoth.NewMemoryIndex(name, kit.SpaceTokenizer{})}
			last = &box{w: weak.Make(t)}
			built = append(built, last)
			return t
		}
		wrap := r.P(0.5)
		var repo *visigoth.IndexRepo
		if wrap {
			repo = visigoth.NewIndexRepo(mk)
		} else {
			repo = visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		}
		idx := map[string]*box{}
		als := map[string][]string{}
		var ws []watched
		var log []string
		do := func(f string, a ...any) {
			log = append(log, fmt.Sprintf(f, a...))
			c.Op("%s", log[len(log)-1])
		}
		check := func() {
			gcAll()
			live := map[int]bool{}
			liveBox := map[*box]bool{}
			for _, b := range idx {
				liveBox[b] = true
				for _, d := range b.docs {
					live[d] = true
				}
			}
			gone := 0
			for _, w := range ws {
				c.Eval(1)
				if !live[w.id] {
					gone++
					if w.w.Value() != nil {
						c.Fail(map[string]any{"operations": log}, "document %d is still held in memory, though no index with it exists any more", w.id)
					}
				}
			}
			c.Count("documents seen released", int64(gone))
			for k, b := range built {
				if !liveBox[b] {
					c.Count("indices seen released", 1)
					if b.w.Value() != nil {
						c.Fail(map[string]any{"operations": log}, "the index built as number %d is still held in memory after it was dropped or replaced", k)
					}
				}
			}
			runtime.KeepAlive(repo)
		}
		nops := r.Size(3, 60)
		for k := 0; k < nops; k++ {
			n, m := Pick(r, names), Pick(r, names)
			switch x := r.IntN(16); {
			case x < 5:
				l := []string{n}
				if idx[n] == nil {
					l = als[n]
				}
				style := r.IntN(3)
				do("Put(%q, doc %d, style %d)", n, len(ws), style)
				w := putWatched(repo, n, len(ws), r.Size(60, 3000), style)
				ws = append(ws, w)
				if len(l) == 0 {
					b := last
					if !wrap {
						b = &box{}
					}
					last = nil
					idx[n] = b
					l = []string{n}
				}
				for _, y := range l {
					idx[y].docs = append(idx[y].docs, w.id)
				}
			case x < 7:
				do("Rename(%q, %q)", n, m)
				repo.Rename(n, m)
				if idx[n] != nil && n != m {
					idx[m] = idx[n]
					delete(idx, n)
					for a, l := range als {
						if has(l, n) {
							als[a] = with(without(l, n), m)
						}
					}
				}
			case x < 9:
				do("Alias(%q, %q)", n, m)
				repo.Alias(n, m)
				if idx[m] != nil {
					als[n] = with(als[n], m)
				}
			case x < 11:
				do("Drop(%q)", n)
				repo.Drop(n)
				if idx[n] != nil {
					delete(idx, n)
					for a, l := range als {
						als[a] = without(l, n)
					}
				}
			case x < 14:
				q := Pick(r, []string{"alpha", "beta", "alpha beta", "doc" + kit.Itoa(r.IntN(len(ws)+1)), "absent", "lorem"})
				e := Pick(r, engines)
				do("Search(%q, %q, %s)", n, q, e.name)
				if st, err := repo.Search(n, q, e.fn); err == nil && r.P(0.5) {
					for st.Next() {
						_ = st.Data()
					}
				}
			case x < 15:
				do("listings")
				repo.List()
				repo.ListAliases()
				_ = repo.String()
				repo.Has(n)
				repo.HasAlias(n)
			default:
				if n != "" {
					do("UnAlias(%q, %q)", n, m)
					repo.UnAlias(n, m)
					if m == "" {
						als[n] = nil
					} else if idx[m] != nil {
						als[n] = without(als[n], m)
					}
				}
			}
			if r.P(0.04) {
				check()
			}
		}
		if r.P(0.6) { // all of them
			for n := range idx {
				do("Drop(%q)", n)
				repo.Drop(n)
				delete(idx, n)
			}
		}
		check()
		c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
		if c.WantSample() && len(log) < 14 {
			c.Sample(log)
		}
	})
	kinds := []string{"search", "failed", "aliases", "create and drop", "rename onto", "listing", "rename to and fro"}
	c.Cases("growth", 1_000_000, c.N(56, 700), func(r *kit.Rand, i int) {
		// operations that leave the repository as it was must leave the heap as it was
		kind := kinds[i%len(kinds)]
		prev := debug.SetGCPercent(50)
		defer debug.SetGCPercent(prev)
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for k := 0; k < 4; k++ {
			repo.Put("i"+kit.Itoa(k), visigoth.NewDocRequest("n", "alpha beta"))
			repo.Alias("x", "i"+kit.Itoa(k))
		}
		big := strings.Repeat("y", 900)
		step := 0
		cycle := func(n int) {
			for k := 0; k < n; k++ {
				step++
				u := big + kit.Itoa(step)
				c.Tick()
				switch kind {
				case "search":
					for _, e := range engines[:2] {
						if st, err := repo.Search(Pick(r, []string{"x", "i0", "i1"}), "alpha "+u, e.fn); err == nil {
							for st.Next() {
								_ = st.Data()
							}
						}
					}
				case "failed":
					_, _ = repo.Search(u, u, visigoth.HitsSearch)
					repo.Drop(u)
					repo.Rename(u, u+"z")
					repo.Alias(u, u)
					repo.UnAlias(u, "i0")
					repo.UnAlias("x", u)
					repo.UnAlias(u, "")
					repo.Has(u)
					repo.HasAlias(u)
				case "aliases":
					repo.Alias(u, "i1")
					repo.Alias(u, "i2")
					if step%2 == 0 {
						repo.UnAlias(u, "")
					} else {
						repo.UnAlias(u, "i1")
						repo.UnAlias(u, "i2")
					}
				case "create and drop":
					repo.Put(u, visigoth.NewDocRequest(u, "alpha "+u))
					repo.Alias("x", u)
					repo.Put("x", visigoth.NewDocRequestWith("n", "small", ""))
					_, _ = repo.Search("x", "alpha", visigoth.LinearSearch)
					repo.Drop(u)
					if step%400 == 0 { // the indices that stay got documents as well
						for k := 0; k < 4; k++ {
							repo.Drop("i" + kit.Itoa(k))
							repo.Put("i"+kit.Itoa(k), visigoth.NewDocRequest("n", "alpha beta"))
							repo.Alias("x", "i"+kit.Itoa(k))
						}
					}
				case "rename onto":
					repo.Put(u, visigoth.NewDocRequest("n", "alpha "+u))
					repo.Rename(u, "target")
				case "listing":
					repo.List()
					repo.ListAliases()
					_ = repo.String()
				case "rename to and fro":
					repo.Rename("i3", u)
					repo.Rename(u, "i3")
				}
			}
		}
		const lap = 1600
		cycle(lap)
		h1 := heap()
		cycle(lap)
		h2 := heap()
		cycle(lap)
		h3 := heap()
		c.Eval(1)
		c.Max("heap growth (bytes) over 3200 rounds", h3-h1)
		if h3-h2 > 700_000 && h2-h1 > 700_000 {
			c.Fail(map[string]any{"kind": kind, "heap": []int64{h1, h2, h3}}, "%s: every %d rounds of operations that leave nothing behind leave %d bytes in memory", kind, lap, (h3-h1)/2)
		}
		runtime.KeepAlive(repo)
		c.Count("growth rounds", 3*lap)
		c.Nontrivial(kit.Hash(kind, i))
	})
}

// ---- X07: operations leave nothing running -----------------------------------------

// busyIndex wraps the built-in index and tells when it is at work, and for whom.
type busyIndex struct {
	in visigoth.Index
	w  *busyWatch
	k  int
}

type busyWatch struct {
	mu    sync.Mutex
	state map[string]*busyOp
	late  string
	delay []int
}

type busyOp struct{ begun, ended, returned int }

func (w *busyWatch) begin(key string) {
	w.mu.Lock()
	o := w.state[key]
	if o == nil {
		o = &busyOp{}
		w.state[key] = o
	}
	o.begun++
	if o.returned > 0 && w.late == "" {
		w.late = "an index is called on behalf of " + key + " after that operation had returned"
	}
	w.mu.Unlock()
}

func (w *busyWatch) end(key string) {
	w.mu.Lock()
	w.state[key].ended++
	w.mu.Unlock()
}

// back is called when an operation has returned.
func (w *busyWatch) back(key string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	o := w.state[key]
	if o == nil {
		o = &busyOp{}
		w.state[key] = o
	}
	o.returned++
	if o.begun != o.ended {
		return fmt.Sprintf("%d of %d index calls made for %s are still running when it has returned", o.begun-o.ended, o.begun, key)
	}
	return w.late
}

func (w *busyWatch) pause(k int) {
	d := w.delay[k%len(w.delay)]
	if vsched.Mode == vsched.ModeControlled {
		for ; d > 0; d-- {
			vsched.Yield()
		}
	} else if d > 0 {
		time.Sleep(time.Duration(d*20) * time.Microsecond)
	}
}

func (b *busyIndex) Put(d visigoth.DocRequest) visigoth.Index {
	key := "put of " + d.Name
	b.w.begin(key)
	b.w.pause(b.k)
	b.in.Put(d)
	b.w.pause(b.k + 1)
	b.w.end(key)
	return b
}

func (b *busyIndex) Search(terms string, e visigoth.Engine) results {
	key := "search for " + terms
	b.w.begin(key)
	b.w.pause(b.k + 2)
	rs := b.in.Search(terms, e)
	b.w.pause(b.k + 3)
	b.w.end(key)
	return rs
}

// targetGoroutines gives the stacks of goroutines running or started by the code
// under test; operationGoroutines leaves out those a repository had from the start.
func operationGoroutines() []string {
	return slices.DeleteFunc(targetGoroutines(), func(g string) bool { return constructed.MatchString(g) })
}

var constructed = regexp.MustCompile(`(?m)^created by github\.com/sonirico/visigoth\.New\w*(\.func\d+)* in`)

func targetGoroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		if n := runtime.Stack(buf, true); n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for k, g := range strings.Split(string(buf), "\n\n") {
		if k > 0 && (strings.Contains(g, "created by github.com/sonirico/visigoth") || strings.Contains(g, vsched.Target)) && !strings.Contains(g, "main.targetGoroutines") {
			out = append(out, g)
		}
	}
	return out
}

func x07(c *kit.Ctx) {
	free := vsched.Mode != vsched.ModeControlled
	var stragglers atomic.Int64
	run := func(r *kit.Rand, clients, each, reps int, wide bool) {
		names := universe(r)
		w := &busyWatch{}
		for k := 0; k < 7; k++ {
			d := 0
			if r.P(0.5) {
				d = r.IntN(10)
			}
			w.delay = append(w.delay, d)
		}
		large := r.P(0.2)
		if wide {
			// one alias of very many indices
			clients, each, reps, large = 1+r.IntN(2), 2+r.IntN(4), 1, false
		}
		var setup []op
		g := newGen(r, names, map[string]int{"put": 3, "alias": 4, "rename": 1})
		for k := r.Size(0, 20); k > 0; k-- {
			setup = append(setup, g.next())
		}
		if large {
			n := r.Size(4, 40)
			for k := 0; k < n; k++ {
				setup = append(setup, op{Kind: "put", A: "many" + kit.Itoa(k), Doc: 7 + k}, op{Kind: "alias", A: Pick(r, names), B: "many" + kit.Itoa(k)})
			}
		}
		if wide {
			setup = setup[:0]
			n := 41 + r.IntN(400)
			if l := c.Dict.NewSizes(40, 2000); len(l) > 0 && r.P(0.5) {
				n = Pick(r, l)
			}
			for k := 0; k < n; k++ {
				setup = append(setup, op{Kind: "put", A: "many" + kit.Itoa(k), Doc: 7 + k}, op{Kind: "alias", A: "wide", B: "many" + kit.Itoa(k)})
			}
			names = []string{"wide", "wide", "wide", "many1", "many" + kit.Itoa(n-1)}
			c.Max("indices of one alias", int64(n))
		}
		plans := make([][]op, clients)
		prof := profileOf(r)
		for k := range plans {
			gk := newGen(r, names, hot[prof])
			for j := 0; j < each; j++ {
				plans[k] = append(plans[k], gk.next())
			}
		}
		for rep := 0; rep < reps && !c.Violated(); rep++ {
			w.mu.Lock()
			w.state, w.late = map[string]*busyOp{}, ""
			w.mu.Unlock()
			built := 0
			var repo *visigoth.IndexRepo
			do := func(who string, o op) {
				key := ""
				c.Op("%s: %s", who, o)
				switch o.Kind {
				case "put":
					name := fmt.Sprintf("%s/%s", who, kit.Itoa(o.Doc))
					key = "put of " + name
					repo.Put(o.A, visigoth.NewDocRequest(name, docText(o.Doc)))
				case "search":
					terms := o.B + " " + who
					key = "search for " + terms
					_, _ = repo.Search(o.A, terms, engineOf(o.Eng))
				default:
					exec(repo, o)
				}
				c.Eval(1)
				if key != "" {
					if bad := w.back(key); bad != "" {
						c.Fail(map[string]any{"setup": fmt.Sprint(setup), "clients": fmt.Sprint(plans), "operation": o.String()}, "%s", bad)
					}
				}
			}
			inner := visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{})
			res := session(c, r, func() {
				repo = visigoth.NewIndexRepo(func(name string) visigoth.Index {
					built++
					return &busyIndex{in: inner(name), w: w, k: built * 3}
				})
				for k, o := range setup {
					do("setup"+kit.Itoa(k), o)
				}
			})
			if res.Leaked > 0 {
				c.Violate(map[string]any{"setup": fmt.Sprint(setup)}, "%d goroutines started by an operation stay behind", res.Leaked)
			}
			if !judge(c, res, map[string]any{"setup": fmt.Sprint(setup)}) {
				return
			}
			var bodies []func()
			for k := range plans {
				bodies = append(bodies, func() {
					for j, o := range plans[k] {
						do("c"+kit.Itoa(k)+"o"+kit.Itoa(j), o)
					}
				})
			}
			res = session(c, r, bodies...)
			wit := map[string]any{"setup": fmt.Sprint(setup), "clients": fmt.Sprint(plans)}
			if res.Leaked > 0 {
				c.Violate(wit, "%d goroutines started by an operation stay behind", res.Leaked)
			}
			if !judge(c, res, wit) {
				return
			}
			if free && (!keepers || rep == 0 && r.P(0.05)) {
				// goroutines that are about to end get time to do so
				var gs []string
				for k := 0; k < 400; k++ {
					if runtime.NumGoroutine() <= 3 {
						gs = nil
						break
					}
					if gs = operationGoroutines(); len(gs) == 0 {
						break
					}
					stragglers.Add(1)
					time.Sleep(time.Duration(k/4) * 100 * time.Microsecond)
				}
				if len(gs) > 0 {
					wit["goroutines"] = gs[:min(len(gs), 5)]
					c.Fail(wit, "%d goroutines started by operations stay behind when all operations have returned", len(gs))
				}
			}
			w.mu.Lock()
			late, calls, open := w.late, 0, 0
			for _, o := range w.state {
				calls += o.begun
				open += o.begun - o.ended
			}
			w.mu.Unlock()
			c.Count("index calls watched", int64(calls))
			if late != "" || open != 0 {
				c.Fail(wit, "work goes on after all operations returned: %d calls running; %s", open, late)
			}
			c.Nontrivial(kit.Hash(res.Hash, fmt.Sprint(plans), rep))
		}
		if c.WantSample() && len(setup) < 6 {
			c.Sample(map[string]any{"setup": fmt.Sprint(setup), "clients": fmt.Sprint(plans)})
		}
	}
	c.Cases("sequences", 0, c.N(1500, 60_000), func(r *kit.Rand, i int) { run(r, 1, r.Size(1, 30), 1, false) })
	c.Cases("programs", 1_000_000, c.N(1500, 60_000), func(r *kit.Rand, i int) { run(r, 2+r.IntN(3), 1+r.IntN(5), 3, false) })
	if free {
		c.Cases("wide aliases", 2_000_000, c.N(60, 2500), func(r *kit.Rand, i int) { run(r, 0, 0, 0, true) })
	}
}

// ---- X08: reading and stateless calls from many goroutines --------------------------

func x08(c *kit.Ctx) {
	c.Cases("shared values", 0, c.N(160, 8000), func(r *kit.Rand, i int) {
		type task struct {
			name string
			do   func() string
			want string
		}
		var tasks []task
		add := func(name string, do func() string) { tasks = append(tasks, task{name, do, do()}) }
		some := func(n int, f func()) {
			for k := 1 + r.IntN(n); k > 0; k-- {
				f()
			}
		}
		str := func(rs results) string {
			var b strings.Builder
			for _, x := range rs {
				b.WriteString(x.Document.Name)
				b.WriteByte(0)
				b.WriteString(x.Document.Content)
				b.WriteByte(0)
				b.WriteString(strconv.Itoa(x.Hits))
				b.WriteByte(1)
			}
			return b.String()
		}
		nums := func(l []int) string {
			var b []byte
			for _, x := range l {
				b = strconv.AppendInt(append(b, ' '), int64(x), 10)
			}
			return string(b)
		}
		vocab := r.Vocab(20)

		// word regions
		some(6, func() {
			w := []byte(Pick(r, kit.Spanish))
			if r.P(0.3) {
				w = []byte(r.Bytes(4))
			}
			add("R1R2RV", func() string {
				r1, r2, rv := visigoth.R1R2RV(w)
				return string(r1) + "\x00" + string(r2) + "\x00" + string(rv)
			})
		})
		// documents and results
		var list visigoth.SearchResults
		for k := r.Size(2, 40); k > 0; k-- {
			list = append(list, visigoth.SearchResult{Document: visigoth.NewDoc(r.Name(4), r.Text(vocab, 3, true)), Hits: r.IntN(4)})
		}
		some(3, func() {
			d := Pick(r, list).Document
			key := d.Hash()
			add("Doc.Hash", func() string { return strconv.FormatBool(d.Hash() == key) })
		})
		add("SearchResults.Less", func() string {
			b := make([]byte, 0, 32)
			for j := 1; j < list.Len(); j++ {
				b = append(b, strconv.FormatBool(list.Less(j-1, j))[0])
			}
			return string(b)
		})
		add("sort of a copy", func() string {
			l := append(visigoth.SearchResults{}, list...)
			sort.Stable(l)
			return str(results(l))
		})
		// JSON
		some(4, func() {
			x := Pick(r, list)
			x.Document.Name = strings.ToValidUTF8(x.Document.Name, "?")
			x.Document.Content = strings.ToValidUTF8(x.Document.Content, "?")
			add("MarshalJSON", func() string { b, err := x.MarshalJSON(); return string(b) + strconv.FormatBool(err == nil) })
			b, _ := x.MarshalJSON()
			if r.P(0.3) {
				b = b[:r.IntN(len(b)+1)]
			}
			add("UnmarshalJSON", func() string {
				var y visigoth.SearchResult
				err := y.UnmarshalJSON(append([]byte(nil), b...))
				if err != nil {
					return "error"
				}
				return str(results{y})
			})
		})
		// tokenizers and filters
		text := r.Text(vocab, r.Size(1, 40), false)
		if r.P(0.3) {
			text = r.Bytes(20)
		}
		words := append(kit.RefAlnum(text), "de", "La", "la")
		tok := visigoth.NewKeepAlphanumericTokenizer()
		own := clean([]func(rune) bool{func(x rune) bool { return x > 'k' }, func(x rune) bool { return x == 'a' }})
		add("tokenizer", func() string { return strings.Join(tok.Tokenize(text), "\x00") })
		add("tokenizer of predicates", func() string { return strings.Join(own.Tokenize(text), "\x00") })
		for _, f := range []visigoth.Filter{visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(true), visigoth.NewSpanishStemmer(false)} {
			add("filter", func() string { return strings.Join(f.Filter(words), "\x00") })
		}
		// engines on one view
		view := readOnlyView{words: map[string][]int{}}
		for k := r.Size(1, 60); k > 0; k-- {
			for _, w := range vocab[:4] {
				if r.P(0.6) {
					view.words[w] = append(view.words[w], len(view.docs))
				}
			}
			view.docs = append(view.docs, flat{Name: "d" + kit.Itoa(len(view.docs)), Content: w0(r)})
		}
		q := []string{Pick(r, vocab[:4]), Pick(r, vocab[:4])}
		for _, e := range engines {
			add(e.name+" engine", func() string { return str(e.fn(q, view)) })
		}
		// one index, and one builder
		ix := visigoth.NewMemoryIndex("i", kit.SpaceTokenizer{})
		for k := r.Size(0, 40); k > 0; k-- {
			t := r.Text(vocab, 1+r.IntN(6), true)
			ix.Put(kit.Req(r, "d"+kit.Itoa(k), strings.ToValidUTF8(t, "?"), t))
		}
		for _, e := range engines {
			s := Pick(r, vocab) + " " + Pick(r, vocab)
			if r.P(0.5) {
				s = Pick(r, vocab)
			}
			add("Search "+e.name, func() string { return str(ix.Search(s, e.fn)) })
		}
		w := Pick(r, vocab)
		add("String", func() string { return strconv.Itoa(len(ix.String())) })
		add("Indexed", func() string { return nums(ix.Indexed(w)) })
		add("Len, Document", func() string {
			n := ix.Len()
			if n == 0 {
				return "0"
			}
			d := ix.Document(n - 1)
			return strconv.Itoa(n) + d.ID() + d.Raw()
		})
		add("index as JSON", func() string { b, err := json.Marshal(ix); return string(b) + strconv.FormatBool(err == nil) })
		build := visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{})
		add("builder", func() string {
			in := build("same name")
			in.Put(visigoth.NewDocRequest("d", text))
			in.Put(visigoth.NewDocRequest("e", "always"))
			return str(in.Search("always", visigoth.HitsSearch)) + str(in.Search(text, visigoth.NoopAllSearch))
		})

		n := 3 + r.IntN(6)
		each := 150
		pick := make([]int, 0, 3) // some calls only, so that they meet
		for k := 1 + r.IntN(4); k > 0; k-- {
			pick = append(pick, r.IntN(len(tasks)))
		}
		if r.P(0.2) {
			pick = pick[:0]
			for k := range tasks {
				pick = append(pick, k)
			}
		}
		var bodies []func()
		for k := 0; k < n; k++ {
			rr := kit.NewRand(r.Uint64(), uint64(k), r.D)
			bodies = append(bodies, func() {
				for j := 0; j < each; j++ {
					t := &tasks[pick[rr.IntN(len(pick))]]
					if got := t.do(); got != t.want {
						c.Fail(map[string]any{"call": t.name, "got": kit.Clip(got), "alone": kit.Clip(t.want), "goroutines": n}, "%s gives another answer while %d goroutines call it", t.name, n)
					}
				}
			})
		}
		names := []string{}
		for _, k := range pick {
			names = append(names, tasks[k].name)
		}
		sort.Strings(names)
		c.Op("%d goroutines: %s", n, strings.Join(names, ", "))
		c.Quiet = true
		res := session(c, r, bodies...)
		c.Quiet = false
		if res.Panic != "" {
			c.Violate(map[string]any{"calls": names, "goroutines": n}, "calls from %d goroutines crash: %s", n, res.Panic)
		}
		c.Eval(n * each)
		c.Count("concurrent calls", int64(n*each))
		c.Nontrivial(kit.Hash(i, names, n))
		if c.WantSample() {
			c.Sample(map[string]any{"goroutines": n, "calls": names})
		}
	})
}

func w0(r *kit.Rand) string { return "w" + kit.Itoa(r.IntN(9)) }

// readOnlyView hands out its own lists and keeps no record of it.
type readOnlyView struct {
	docs  []flat
	words map[string][]int
}

func (v readOnlyView) Len() int { return len(v.docs) }
func (v readOnlyView) Document(i int) visigoth.Doc {
	return visigoth.NewDoc(v.docs[i].Name, v.docs[i].Content)
}
func (v readOnlyView) Indexed(w string) []int { return v.words[w] }

func init() { props["X08"] = x08 }
