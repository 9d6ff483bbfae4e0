package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sonirico/visigoth"

	"verifharness/kit"
)

// Some indices answer after real time: longer than one second, and longer than
// every duration the code under test mentions, so that time limits on waiting
// for an index or for a lock show.

type napWatch struct {
	mu    sync.Mutex
	calls map[string]int // operation and index
	open  map[string]int // operation
	nap   time.Duration
	slow  map[string]bool
	on    atomic.Bool
}

type napIndex struct {
	visigoth.Index
	name string
	w    *napWatch
}

func (n *napIndex) do(key string, f func()) {
	n.w.mu.Lock()
	n.w.calls[key+" at "+n.name]++
	n.w.open[key]++
	n.w.mu.Unlock()
	if n.w.on.Load() && n.w.slow[n.name] {
		time.Sleep(n.w.nap)
	}
	f()
	n.w.mu.Lock()
	n.w.open[key]--
	n.w.mu.Unlock()
}

func (n *napIndex) Put(d visigoth.DocRequest) visigoth.Index {
	n.do("put "+d.Name, func() { n.Index.Put(d) })
	return n
}

func (n *napIndex) Search(terms string, e visigoth.Engine) (rs results) {
	n.do("search "+terms, func() { rs = n.Index.Search(terms, e) })
	return rs
}

// naps lists how long slow indices take.
func naps(d *kit.Dict) []time.Duration {
	out := []time.Duration{1200 * time.Millisecond}
	for _, v := range d.Durations {
		if t := time.Duration(v); t <= 8*time.Second {
			out = append(out, t+t/5+30*time.Millisecond)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a] > out[b] })
	return out[:min(len(out), 16)]
}

// slowPart judges one aspect: "open" (work left when an operation returns),
// "calls" (each index called exactly once), "results" and "order" (what searches return),
// "stored" (what puts store), "ops" (what other operations do meanwhile).
func slowPart(aspects ...string) func(c *kit.Ctx) {
	judged := map[string]bool{}
	for _, a := range aspects {
		judged[a] = true
	}
	return func(c *kit.Ctx) {
		ns := naps(c.Dict)
		c.Cases("slow indices", 9_000_000, 4*len(ns), func(r *kit.Rand, i int) {
			w := &napWatch{calls: map[string]int{}, open: map[string]int{}, nap: ns[i/4], slow: map[string]bool{}}
			log := []string{fmt.Sprintf("indices taking %v", w.nap)}
			wit := func() any { return map[string]any{"operations": log} }
			bad := func(aspect, f string, a ...any) {
				if judged[aspect] {
					c.Fail(wit(), f, a...)
				}
				c.Count("differences judged by other properties", 1)
			}
			inner := visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{})
			repo := visigoth.NewIndexRepo(func(name string) visigoth.Index { return &napIndex{inner(name), name, w} })
			say := func(f string, a ...any) {
				c.Op(f, a...)
				log = append(log, fmt.Sprintf(f, a...))
			}
			put := func(to, doc string) { repo.Put(to, visigoth.NewDocRequest(doc, "w "+doc)) }
			search := func(on, terms string) (string, int) {
				s, err := repo.Search(on, terms, visigoth.LinearSearch)
				if err != nil {
					return "error " + err.Error(), -1
				}
				var ids []string
				for s.Next() {
					ids = append(ids, s.Data().Document.ID())
				}
				return strings.Join(ids, " "), len(ids)
			}
			names := []string{"a", "b", "c", "d"}
			for _, n := range names {
				for k := 0; k < 3; k++ {
					say("Put(%s, %s%d)", n, n, k)
					put(n, fmt.Sprint(n, k))
				}
				say("Alias(x, %s)", n)
				repo.Alias("x", n)
			}
			full := "a0 a1 a2 b0 b1 b2 c0 c1 c2 d0 d1 d2"
			sorted := func(s string) string {
				f := strings.Fields(s)
				sort.Strings(f)
				return strings.Join(f, " ")
			}
			first, _ := search("x", "w")
			say("Search(x) = %s", first)
			if sorted(first) != full {
				bad("results", "a search on an alias over quick indices returns %q", first)
				return
			}
			w.slow[names[r.IntN(3)]] = true
			if r.P(0.4) {
				w.slow[Pick(r, names)] = true
			}
			check := func(key string, on []string) {
				w.mu.Lock()
				defer w.mu.Unlock()
				if n := w.open[key]; n != 0 {
					bad("open", "%d index calls are still running when the operation (%s) has returned", n, key)
				}
				for _, n := range names {
					want := 0
					for _, o := range on {
						if o == n {
							want = 1
						}
					}
					if got := w.calls[key+" at "+n]; got != want {
						bad("calls", "%s: index %s has been called %d times when the operation returns, want %d", key, n, got, want)
					}
				}
			}
			var slow []string
			for n := range w.slow {
				slow = append(slow, n)
			}
			sort.Strings(slow)
			say("from here on %v are slow", slow)
			w.on.Store(true)
			switch i % 4 {
			case 0: // a search on the alias
				got, _ := search("x", "w w")
				say("Search(x) = %s", got)
				check("search w w", names)
				if got != first {
					aspect := "order"
					if sorted(got) != full {
						aspect = "results"
					}
					bad(aspect, "searching an alias over slow indices returns %q, over quick ones %q", got, first)
				}
				c.Eval(3)
			case 1: // a put through the alias, a put to a slow index
				say("Put(x, e)")
				put("x", "e")
				check("put e", names)
				say("Put(%s, f)", slow[0])
				put(slow[0], "f")
				check("put f", slow[:1])
				w.on.Store(false)
				for _, n := range names {
					want := fmt.Sprintf("%s0 %s1 %s2 e", n, n, n)
					if n == slow[0] {
						want += " f"
					}
					if got, _ := search(n, "w"); got != want {
						bad("stored", "after puts to slow indices index %s holds %q, want %q", n, got, want)
					}
				}
				c.Eval(6)
			case 2: // a search on the slow index itself
				want, _ := search(slow[0], "w")
				got, _ := search(slow[0], "w w w")
				check("search w w w", slow[:1])
				if len(strings.Fields(want)) != 3 || got != want {
					bad("results", "searching a slow index returns %q, then %q", want, got)
				}
				c.Eval(3)
			case 3: // other operations while a search is under way
				var wg sync.WaitGroup
				var mu sync.Mutex
				var faults []string
				fault := func(f string, a ...any) {
					mu.Lock()
					faults = append(faults, fmt.Sprintf(f, a...))
					mu.Unlock()
				}
				var during string
				run := func(f func()) {
					wg.Add(1)
					go func() { defer wg.Done(); f() }()
				}
				say("Search(x) meanwhile Put(a, m), Put(new, n), Put(x, o), Alias(y, a), Rename(d, d2), Drop(c)")
				run(func() { during, _ = search("x", "w w") })
				time.Sleep(10 * time.Millisecond)
				run(func() { put("a", "m") })
				run(func() { put("new", "n") })
				run(func() { put("x", "o") })
				run(func() {
					if !repo.Alias("y", "a") {
						fault("Alias(y, a) reports failure")
					}
				})
				run(func() {
					if !repo.Rename("d", "d2") {
						fault("Rename(d, d2) reports failure")
					}
				})
				run(func() {
					if !repo.Drop("c") {
						fault("Drop(c) reports failure")
					}
				})
				wg.Wait()
				w.on.Store(false)
				say("Search(x) = %s", during)
				has := map[string]int{}
				for _, d := range strings.Fields(during) {
					has[d]++
				}
				for _, d := range strings.Fields(full) {
					if n := has[d]; n > 1 || n == 0 && d[0] != 'c' {
						bad("results", "a search on an alias over slow indices returns %s %d times: %q", d, n, during)
					}
				}
				if len(faults) > 0 {
					bad("ops", "while a search on slow indices runs: %v", faults)
				}
				is := map[string]bool{}
				for _, n := range repo.List() {
					is[n] = true
				}
				for _, n := range []string{"a", "b", "d2", "new"} {
					if !is[n] || !repo.Has(n) {
						bad("ops", "index %s is missing after operations on slow indices, listed: %v", n, repo.List())
					}
				}
				if len(is) != 4 || repo.Has("c") || repo.Has("d") || !repo.HasAlias("y") {
					bad("ops", "after operations on slow indices the repository lists %v and %v", repo.List(), repo.ListAliases())
				}
				for n, docs := range map[string]string{"a": "a0 a1 a2 m o", "b": "b0 b1 b2 o", "d2": "d0 d1 d2 o", "new": "n"} {
					if got, _ := search(n, "w"); sorted(got) != docs {
						bad("stored", "after puts during a slow search index %s holds %q, want %q", n, got, docs)
					}
				}
				c.Eval(12)
			}
			if len(w.open) > 0 {
				w.mu.Lock()
				for k, n := range w.open {
					if n != 0 {
						w.mu.Unlock()
						bad("open", "%d index calls made for %s are still running at the end", n, k)
						w.mu.Lock()
					}
				}
				w.mu.Unlock()
			}
			c.Count("slow operations", 1)
			c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
		})
	}
}

func init() {
	props["R02/slow"] = slowPart("results", "stored")
	props["R07/slow"] = slowPart("results", "order")
	props["R08/slow"] = slowPart("calls")
	props["X01/slow"] = slowPart("results", "stored", "ops")
	props["X03/slow"] = func(c *kit.Ctx) { slowPart()(c); starved(c) }
	props["X04/slow"] = slowPart("stored")
	props["X06/slow"] = slowPart("results", "ops")
	props["X07/slow"] = slowPart("open")
}

// sleepyIndex does nothing, which takes it a while.
type sleepyIndex struct{ nap time.Duration }

func (s sleepyIndex) Put(visigoth.DocRequest) visigoth.Index { time.Sleep(s.nap); return s }

func (s sleepyIndex) Search(string, visigoth.Engine) results { time.Sleep(s.nap); return nil }

func (s sleepyIndex) String() string { return "sleepy" }

// starved: an operation returns though searches keep coming, so many of them and so
// long that there is hardly a moment without one under way. (Loads of puts are left
// out: a lock that lets writers go first is a legitimate choice.)
func starved(c *kit.Ctx) {
	doc := visigoth.NewDocRequest("d", "w")
	type load struct {
		what string
		f    func(repo *visigoth.IndexRepo)
	}
	loads := []load{
		{"Search(a)", func(repo *visigoth.IndexRepo) { _, _ = repo.Search("a", "w", nil) }},
		{"Search(x)", func(repo *visigoth.IndexRepo) { _, _ = repo.Search("x", "w", nil) }},
		{"Put(a)", func(repo *visigoth.IndexRepo) { repo.Put("a", doc) }},
		{"Put(x)", func(repo *visigoth.IndexRepo) { repo.Put("x", doc) }},
	}
	others := []load{
		{"List", func(repo *visigoth.IndexRepo) { repo.List() }},
		{"ListAliases", func(repo *visigoth.IndexRepo) { repo.ListAliases() }},
		{"Has", func(repo *visigoth.IndexRepo) { repo.Has("a") }},
		{"HasAlias", func(repo *visigoth.IndexRepo) { repo.HasAlias("x") }},
		{"Alias and UnAlias", func(repo *visigoth.IndexRepo) { repo.Alias("y", "b"); repo.UnAlias("y", "b") }},
		{"UnAlias of all", func(repo *visigoth.IndexRepo) { repo.Alias("y", "b"); repo.UnAlias("y", "") }},
		{"Rename there and back", func(repo *visigoth.IndexRepo) { repo.Rename("b", "c"); repo.Rename("c", "b") }},
		{"Put and Drop", func(repo *visigoth.IndexRepo) { repo.Put("e", doc); repo.Drop("e") }},
		{"String", func(repo *visigoth.IndexRepo) { _ = repo.String() }},
	}
	c.Cases("steady load", 9_100_000, 3*(len(loads)+len(others)), func(r *kit.Rand, i int) {
		victims := append(append([]load{}, loads...), others...)
		v := victims[i%len(victims)]
		kind := i / len(victims)
		use := loads[kind%2 : kind%2+1]
		if kind == 2 {
			use = loads[:2]
		}
		nap := 2 * time.Millisecond
		repo := visigoth.NewIndexRepo(func(string) visigoth.Index { return sleepyIndex{nap} })
		for _, n := range []string{"a", "b"} {
			repo.Put(n, doc)
			repo.Alias("x", n)
		}
		var stop atomic.Bool
		var n atomic.Int64
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			l := use[k%len(use)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(k) * nap / 8)
				for !stop.Load() {
					l.f(repo)
					n.Add(1)
				}
			}()
		}
		time.Sleep(4 * nap)
		done := make(chan struct{})
		c.Op("%s while others %s and so on", v.what, use[0].what)
		go func() {
			for k := 0; k < 3; k++ {
				v.f(repo)
			}
			close(done)
		}()
		from, waited := n.Load(), 0
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-time.After(time.Second):
			}
			// a slow machine is no verdict: what counts is how often others had their turn
			if waited++; waited >= 20 && n.Load()-from > 4000 {
				// (a fair lock lets the victim have its turn after each of the 8 others)
				c.Violate(map[string]any{"load": use[0].what, "operation": v.what, "operations of the others meanwhile": n.Load() - from},
					"%s has not returned after %d s, while operations of 8 others keep completing, %d of them", v.what, waited, n.Load()-from)
				break wait
			}
			if waited >= 80 {
				c.Count("inconclusive: too slow a machine", 1)
				break wait
			}
		}
		stop.Store(true)
		wg.Wait()
		<-done
		c.Eval(1)
		c.Max("operations of others meanwhile", n.Load()-from)
		c.Nontrivial(kit.Hash(v.what, kind))
	})
}
