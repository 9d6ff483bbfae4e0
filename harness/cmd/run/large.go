package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sonirico/visigoth"

	"verifharness/kit"
)

// largeAnswers searches indices and aliases for more documents than the other
// workloads: thousands, and around every size the code mentions. It judges what
// searches on an index return ("direct"), on an alias ("alias"), in which order
// ("order"), and what streams do that are read late ("stream").
func largeAnswers(aspects ...string) func(c *kit.Ctx) {
	judged := map[string]bool{}
	for _, a := range aspects {
		judged[a] = true
	}
	return func(c *kit.Ctx) {
		c.Cases("large answers", 9_500_000, c.N(32, 800), func(r *kit.Rand, i int) {
			total := r.Size(600, 9000)
			if l := c.Dict.NewSizes(600, 70_000); len(l) > 0 && i%2 == 0 {
				total = Pick(r, l)
			}
			k := 1 + r.IntN(4)
			repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
			model := make([][]string, k)
			log := []string{fmt.Sprintf("%d indices with %d documents, all of them attached to the alias x", k, total)}
			c.Op("%s", log[0])
			bad := func(aspect, f string, a ...any) {
				if judged[aspect] {
					c.Fail(map[string]any{"operations": log}, f, a...)
				}
				c.Count("differences judged by other properties", 1)
			}
			name := func(j int) string { return "i" + kit.Itoa(j) }
			n := 0
			put := func(j int) {
				d := "d" + kit.Itoa(n)
				n++
				repo.Put(name(j), visigoth.NewDocRequest(d, "all"))
				model[j] = append(model[j], d)
			}
			for j := range model {
				put(j)
				repo.Alias("x", name(j))
			}
			// one index holds exactly that many, or all of them together do
			big := r.IntN(k)
			skew := Pick(r, []float64{0.9, 0, 0.4})
			for n < total {
				if r.P(skew) || k == 1 {
					put(big)
				} else {
					put(r.IntN(k))
				}
			}
			if r.P(0.5) {
				for len(model[big]) < total {
					put(big)
				}
			}
			read := func(on string, e visigoth.Engine) []string {
				s, err := repo.Search(on, "all", e)
				if err != nil {
					return []string{"error " + err.Error()}
				}
				var ids []string
				for s.Next() {
					ids = append(ids, s.Data().Document.ID())
				}
				return ids
			}
			sorted := func(l []string) string {
				l = append([]string{}, l...)
				sort.Strings(l)
				return strings.Join(l, " ")
			}
			var all []string
			for _, l := range model {
				all = append(all, l...)
			}
			for _, e := range engines[:3] {
				for j, want := range model {
					got := read(name(j), e.fn)
					c.Eval(1)
					if sorted(got) != sorted(want) {
						bad("direct", "%s search on an index of %d documents returns %d results that are not exactly these", e.name, len(want), len(got))
					} else if strings.Join(got, " ") != strings.Join(want, " ") {
						bad("order", "%s search on an index of %d documents does not return them in its order", e.name, len(want))
					}
				}
				got := read("x", e.fn)
				c.Eval(2)
				if sorted(got) != sorted(all) {
					bad("alias", "%s search on an alias over %d indices with %d documents returns %d results that are not exactly these", e.name, k, len(all), len(got))
					continue
				}
				for again := 0; judged["order"] && again < 5; again++ {
					if strings.Join(read("x", e.fn), " ") == strings.Join(got, " ") {
						continue
					}
					bad("order", "%s search on an alias over %d indices with %d documents returns another order when repeated", e.name, k, len(all))
				}
				of := map[string]int{}
				for j, l := range model {
					for _, d := range l {
						of[d] = j
					}
				}
				at := make([]int, k)
				for _, d := range got {
					j := of[d]
					if model[j][at[j]] != d {
						bad("order", "%s search on an alias over %d indices with %d documents mixes up the order of index %d", e.name, k, len(all), j)
						break
					}
					at[j]++
				}
			}
			// read late
			on, docs := "x", all
			if r.P(0.4) {
				on, docs = name(big), append([]string{}, model[big]...)
			}
			want := len(docs)
			e := engines[r.IntN(3)]
			s, err := repo.Search(on, "all", e.fn)
			if err != nil {
				return
			}
			seen := map[string]int{}
			stop := r.IntN(want + 1)
			for k := 0; k < stop && s.Next(); k++ {
				seen[s.Data().Document.ID()]++
			}
			for j := range model {
				put(j)
			}
			repo.Drop(name(big))
			more := 0
			for s.Next() {
				seen[s.Data().Document.ID()]++
				more++
			}
			c.Eval(1)
			late := 0
			for _, d := range docs {
				late += min(seen[d], 1)
			}
			if stop+more != want || len(seen) != want || late != want || s.Next() {
				bad("stream", "a stream of %d results, read after %d of them only when documents were put and an index dropped, gives %d results, %d different", want, stop, stop+more, len(seen))
			}
			c.Count("results read", int64(8*want))
			c.Max("results of one search", int64(want))
			c.Nontrivial(kit.Hash(total, k, on, i))
		})
	}
}

func init() {
	props["R01/large"] = largeAnswers("direct")
	props["R02/large"] = largeAnswers("alias")
	props["R06/large"] = largeAnswers("stream")
	props["R07/large"] = largeAnswers("order")
}

// manyStreams opens thousands of streams, on an index or an alias, before it
// reads any of them, in another order.
func manyStreams(c *kit.Ctx) {
	c.Cases("many streams", 9_550_000, c.N(24, 600), func(r *kit.Rand, i int) {
		n := r.Size(100, 5000)
		if l := c.Dict.NewSizes(100, 20_000); len(l) > 0 && i%2 == 0 {
			n = Pick(r, l)
		}
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
		for k := 0; k < 40; k++ {
			repo.Put("i"+kit.Itoa(k%4), visigoth.NewDocRequest("d"+kit.Itoa(k), "w"+kit.Itoa(k%10)+" all"))
			repo.Alias("x", "i"+kit.Itoa(k%3))
		}
		log := fmt.Sprintf("%d streams opened before any is read", n)
		c.Op("%s", log)
		type open struct {
			next func() bool
			data func() visigoth.SearchResult
			want string
		}
		want := func(on, q string) string { // by a search read at once
			var out []string
			s, err := repo.Search(on, q, visigoth.LinearSearch)
			if err != nil {
				return "error"
			}
			for s.Next() {
				out = append(out, s.Data().Document.ID())
			}
			return strings.Join(out, " ")
		}
		wants := map[string]string{}
		var streams []open
		for k := 0; k < n; k++ {
			on, q := Pick(r, []string{"x", "i0", "i1", "i2", "i3"}), Pick(r, []string{"w0", "w3", "w7", "all", "none"})
			key := on + " " + q
			if _, ok := wants[key]; !ok {
				wants[key] = want(on, q)
			}
			s, err := repo.Search(on, q, visigoth.LinearSearch)
			if err != nil {
				return // not this property's matter
			}
			streams = append(streams, open{s.Next, s.Data, wants[key]})
		}
		for _, k := range r.Perm(n) {
			var out []string
			for streams[k].next() {
				out = append(out, streams[k].data().Document.ID())
			}
			c.Eval(1)
			if got := strings.Join(out, " "); got != streams[k].want || streams[k].next() {
				c.Fail(map[string]any{"operations": log, "stream": k, "got": got, "want": streams[k].want}, "stream %d of %d that were open at once gives %q, want %q", k, n, got, streams[k].want)
			}
		}
		c.Max("streams open at once", int64(n))
		c.Nontrivial(kit.Hash(n, i))
	})
}

// largeTables watches repositories with thousands of names: an index in very many
// aliases, an alias of very many indices, and both.
func largeTables(c *kit.Ctx, prop string) {
	c.Cases("large tables", 9_600_000, c.N(12, 100), func(r *kit.Rand, i int) {
		n, shape := r.Size(100, 3000), r.IntN(3)
		if l := c.Dict.NewSizes(70, []int{12_000, 5000, 5000}[shape]); len(l) > 0 && i%2 == 0 {
			n = Pick(r, l)
		}
		var names []string
		for k := 0; k < n; k++ {
			names = append(names, "i"+kit.Itoa(k))
		}
		log := []string{fmt.Sprintf("%s with %d names", []string{"an index in many aliases", "an alias of many indices", "many aliases of an index each, and one of all"}[shape], n)}
		b, _ := builder(r)
		res := session(c, r, func() {
			g := newGen(r, []string{"hub", "all", "new", "i0", "i1", names[n-1], "to0"}, weights[prop])
			s := &seqRepo{c: c, prop: prop, repo: visigoth.NewIndexRepo(b), m: newModel(), g: g, r: r, log: &log}
			build := func(o op) { s.m.step(o, exec(s.repo, o)) }
			put := func(n string) op {
				g.nextDoc++
				return op{Kind: "put", A: n, Doc: g.nextDoc - 1}
			}
			build(put("hub"))
			build(put("new"))
			build(op{Kind: "alias", A: "all", B: "hub"})
			for k, name := range names {
				if shape != 0 {
					build(put(name))
					build(op{Kind: "alias", A: "all", B: name})
				}
				switch shape {
				case 0:
					build(op{Kind: "alias", A: "to" + kit.Itoa(k), B: "hub"})
				case 2:
					build(op{Kind: "alias", A: "to" + kit.Itoa(k), B: name})
				}
				if shape == 2 && r.P(0.5) {
					build(op{Kind: "alias", A: "to" + kit.Itoa(k), B: "hub"})
				}
			}
			c.Count("names", int64(n))
			c.Max("names in one repository", int64(n))
			s.verify(true)
			hub := "hub"
			for k := 0; k < 8 && !s.done; k++ {
				var o op
				switch r.IntN(8) {
				case 0:
					o = put("all")
				case 1:
					o = put(Pick(r, []string{hub, names[r.IntN(n)], "to" + kit.Itoa(r.IntN(n))}))
				case 2:
					o = op{Kind: "unalias", A: "to" + kit.Itoa(r.IntN(n)), B: Pick(r, []string{"", hub, names[r.IntN(n)]})}
				case 3:
					o = op{Kind: "unalias", A: "all", B: Pick(r, []string{"", hub, names[r.IntN(n)], names[n-1]})}
				case 4:
					o = op{Kind: "drop", A: Pick(r, []string{hub, names[r.IntN(n)], names[n-1]})}
				case 5, 6:
					o = op{Kind: "rename", A: hub, B: Pick(r, []string{"new", "hub2-" + kit.Itoa(k), names[r.IntN(n)]})}
					hub = o.B
				case 7:
					o = op{Kind: "rename", A: names[r.IntN(n)], B: Pick(r, []string{hub, "new" + kit.Itoa(k)})}
				}
				s.do(o)
				s.verify(r.P(0.5))
			}
			if len(log) < 300 {
				c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
			}
		})
		judge(c, res, map[string]any{"operations": log})
	})
}

func init() {
	streams := props["R06/large"]
	props["R06/large"] = func(c *kit.Ctx) { streams(c); manyStreams(c) }
	for _, p := range []string{"R01", "R02", "R03", "R04", "R05"} {
		before := props[p+"/large"]
		props[p+"/large"] = func(c *kit.Ctx) {
			if before != nil {
				before(c)
			}
			largeTables(c, p)
		}
	}
}
