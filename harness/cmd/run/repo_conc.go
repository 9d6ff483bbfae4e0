package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

func init() {
	props["X01"] = x01
	props["X02"] = x02
	props["X02/race"] = x02race
	props["X03"] = x03
	props["X04"] = x04
	props["X05"] = x05
	props["X06"] = x06
	props["A04"] = a04
}

// ---- linearizability --------------------------------------------------------

// lop is an operation as the checker sees it. Where the state at the end shows
// in which order the documents of an index were put, every put knows the one
// that must come before it: an index keeps its documents in the order of their
// puts, also under another name, so no other order explains that end, and the
// checker need not try the others.
type lop struct {
	op
	bit, after int // the put's number and that of the one before it, or -1
}

type lstate struct {
	m    *model
	key  string
	done [4]uint64 // numbered puts that have taken place
}

var linModel = porcupine.Model{
	Init: func() any { m := newModel(); return lstate{m: m, key: m.key()} },
	Step: func(st, in, out any) (bool, any) {
		s := st.(lstate)
		o := in.(lop)
		if !o.mutates() {
			return s.m.step(o.op, out.(result)), s
		}
		if o.after >= 0 && s.done[o.after/64]&(1<<(o.after%64)) == 0 {
			return false, s
		}
		m := s.m.clone()
		ok := m.step(o.op, out.(result))
		n := lstate{m, m.key(), s.done}
		if o.bit >= 0 {
			n.done[o.bit/64] |= 1 << (o.bit % 64)
		}
		return ok, n
	},
	Equal: func(a, b any) bool { return a.(lstate).key == b.(lstate).key },
}

// linearizable checks a history against the sequential repository.
func linearizable(ops []porcupine.Operation) porcupine.CheckResult {
	out := append([]porcupine.Operation{}, ops...)
	sort.Slice(out, func(a, b int) bool { return out[a].Call < out[b].Call })
	puts := map[int][]int{} // document -> operations
	last := int64(-1)       // when the last change ended
	for i, o := range out {
		if x := o.Input.(op); x.mutates() {
			last = max(last, o.Return)
			if x.Kind == "put" {
				puts[x.Doc] = append(puts[x.Doc], i)
			}
		}
	}
	bits, after := map[int]int{}, map[int]int{} // by operation
	number := func(i int) int {
		if _, ok := bits[i]; !ok {
			bits[i] = len(bits)
		}
		return bits[i]
	}
	var names []string
	for _, o := range out {
		x, res := o.Input.(op), o.Output.(result)
		switch {
		case o.Call < last:
		case x.Kind == "list":
			names = res.Names
		case x.Kind == "search" && x.Eng == "all" && !res.Err && res.Bad == "" && has(names, x.A):
			for k := 1; k < len(res.Docs); k++ {
				p, q := puts[res.Docs[k-1]], puts[res.Docs[k]]
				if len(p) == 1 && len(q) == 1 && p[0] != q[0] && len(bits) < 250 {
					if _, ok := after[q[0]]; !ok {
						number(q[0])
						after[q[0]] = number(p[0])
					}
				}
			}
		}
	}
	for i := range out {
		l := lop{out[i].Input.(op), -1, -1}
		if n, ok := bits[i]; ok {
			l.bit = n
		}
		if n, ok := after[i]; ok {
			l.after = n
		}
		out[i].Input = l
	}
	return porcupine.CheckOperationsTimeout(linModel, out, 5*time.Second)
}

// history records calls at the client boundary on one logical clock.
type history struct {
	clk atomic.Int64
	mu  sync.Mutex
	ops []porcupine.Operation
}

func (h *history) run(client int, repo *visigoth.IndexRepo, o op) result {
	t0 := h.clk.Add(1)
	x := exec(repo, o)
	t1 := h.clk.Add(1)
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: o, Call: t0, Output: x, Return: t1})
	h.mu.Unlock()
	return x
}

func (h *history) lines() []string {
	ops := append([]porcupine.Operation{}, h.ops...)
	sort.Slice(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("[%d,%d] client %d: %s -> %s", o.Call, o.Return, o.ClientId, o.Input.(op), o.Output.(result)))
	}
	return out
}

func (h *history) overlaps() int {
	n := 0
	for i, a := range h.ops {
		for _, b := range h.ops[:i] {
			if a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return n
}

// program is a concurrent workload.
type program struct {
	names   []string
	setup   []op
	clients [][]op
}

func (p *program) String() string {
	return fmt.Sprint(p.setup, p.clients)
}

var hot = map[string]map[string]int{
	"mixed":   weights["all"],
	"puts":    {"put": 10, "search": 5, "alias": 2, "list": 1, "has": 1},
	"swaps":   {"put": 5, "search": 5, "alias": 5, "unalias": 4, "drop": 3, "rename": 3, "aliases": 2},
	"renames": {"put": 4, "search": 5, "rename": 8, "alias": 3, "drop": 2, "has": 2, "list": 2},
	"drops":   {"put": 5, "search": 4, "drop": 8, "alias": 4, "hasalias": 2, "aliases": 2, "unalias": 2},
	"aliases": {"put": 3, "alias": 8, "unalias": 8, "aliases": 4, "hasalias": 3, "search": 3, "drop": 2},
}

func newProgram(r *kit.Rand, clients, opsEach int, profile string) *program {
	names := [][]string{{"a", "b", "x"}, {"a", "b", "x", "y"}, {"a", "b", "c", "x"}, {"a", "x"}}[r.IntN(4)]
	large := r.P(0.12)
	if large {
		names = []string{"a", "b", "c", "d", "e", "f", "x"}
	}
	p := &program{names: names}
	g := newGen(r, names, map[string]int{"put": 1})
	// a few indices, some of them aliased
	for k := r.IntN(4); k > 0; k-- {
		g.weights, g.kinds, g.total = map[string]int{"put": 1}, []string{"put"}, 1
		p.setup = append(p.setup, g.next())
	}
	for k := r.IntN(4); k > 0; k-- {
		p.setup = append(p.setup, op{Kind: "alias", A: names[len(names)-1], B: g.name()})
	}
	if large { // an alias over many indices, or an index of many documents
		if r.P(0.5) {
			for _, n := range names[:6] {
				p.setup = append(p.setup, op{Kind: "put", A: n, Doc: g.nextDoc}, op{Kind: "alias", A: "x", B: n})
				g.nextDoc++
			}
		} else {
			for k := r.Size(5, 120); k > 0; k-- {
				p.setup = append(p.setup, op{Kind: "put", A: "a", Doc: g.nextDoc})
				g.nextDoc++
			}
		}
	}
	w := hot[profile]
	g2 := newGen(r, names, w)
	if vsched.Mode != vsched.ModeControlled && clients*opsEach > 16 {
		g2.repeat = 0 // long histories of equal puts take the checker very long
	}
	if g2.nextDoc < g.nextDoc {
		g2.nextDoc = g.nextDoc
	}
	for k := 0; k < clients; k++ {
		var l []op
		for j := 0; j < opsEach; j++ {
			l = append(l, g2.next())
		}
		p.clients = append(p.clients, l)
	}
	return p
}

func profileOf(r *kit.Rand) string {
	return Pick(r, []string{"mixed", "mixed", "puts", "swaps", "swaps", "renames", "drops", "aliases"})
}

func (p *program) final() []op {
	out := []op{{Kind: "list"}, {Kind: "aliases"}}
	for _, n := range p.names {
		out = append(out, op{Kind: "search", A: n, Eng: "all"}, op{Kind: "search", A: n, B: "w0", Eng: "hits"})
	}
	return out
}

// play executes a program once and returns its history.
func (p *program) play(c *kit.Ctx, r *kit.Rand, b visigoth.Builder) (*history, vsched.Result) {
	var repo *visigoth.IndexRepo
	h := &history{}
	res := session(c, r, func() {
		repo = visigoth.NewIndexRepo(b)
		for _, o := range p.setup {
			h.run(0, repo, o)
		}
	})
	if res.Bad() != "" || res.Inconclusive != "" {
		return h, res
	}
	var bodies []func()
	for k, l := range p.clients {
		bodies = append(bodies, func() {
			for _, o := range l {
				c.Op("%s", o)
				h.run(k+1, repo, o)
				vsched.Yield()
			}
		})
	}
	res = session(c, r, bodies...)
	if res.Bad() != "" || res.Inconclusive != "" {
		return h, res
	}
	r2 := session(c, r, func() {
		for _, o := range p.final() {
			h.run(0, repo, o)
		}
	})
	r2.Hash = res.Hash
	r2.Leaked += res.Leaked
	return h, r2
}

func x01(c *kit.Ctx) {
	check := func(p *program, h *history, res vsched.Result) {
		if c.Violated() {
			return
		}
		if bad := res.Bad(); bad != "" {
			c.Count("runs that did not complete (judged by X02 and X03)", 1)
			return
		}
		if res.Inconclusive != "" {
			return
		}
		c.Op("linearizability check")
		v := linearizable(h.ops)
		c.Eval(1)
		c.Count("operations recorded", int64(len(h.ops)))
		n := h.overlaps()
		c.Count("overlapping pairs of operations", int64(n))
		switch v {
		case porcupine.Illegal:
			c.Violate(map[string]any{"history": h.lines(), "schedule": fmt.Sprintf("%x", res.Hash)}, "a history of %d operations by %d clients is not linearizable", len(h.ops), len(p.clients))
		case porcupine.Unknown:
			c.Inconclusive("linearizability check timed out")
		}
		if n > 0 {
			c.Nontrivial(kit.Hash(res.Hash, strings.Join(h.lines(), "\n")))
			if c.WantSample() {
				c.Sample(h.lines())
			}
		}
	}
	if vsched.Mode == vsched.ModeControlled {
		c.Cases("programs", 0, c.N(1800, 90000), func(r *kit.Rand, i int) {
			cl := 2 + r.IntN(3)
			p := newProgram(r, cl, 1+r.IntN(4), profileOf(r))
			b, _ := builder(r)
			for k := 0; k < 10 && !c.Violated(); k++ {
				h, res := p.play(c, r, b)
				check(p, h, res)
			}
		})
		return
	}
	c.Cases("free-running programs", 1_000_000, c.N(3600, 180000), func(r *kit.Rand, i int) {
		p := newProgram(r, 3+r.IntN(4), 2+r.IntN(6), profileOf(r))
		b, _ := builder(r)
		for k := 0; k < 5 && !c.Violated(); k++ {
			h, res := p.play(c, r, b)
			check(p, h, res)
		}
	})
}

// ---- crashes ---------------------------------------------------------------

func x02(c *kit.Ctx) {
	c.Cases("programs", 0, c.N(1600, 80000), func(r *kit.Rand, i int) {
		p := newProgram(r, 2+r.IntN(4), 2+r.IntN(5), profileOf(r))
		for k := range p.clients {
			if r.P(0.3) {
				p.clients[k] = append(p.clients[k], op{Kind: "dump"})
			}
		}
		b, _ := builder(r)
		for k := 0; k < 6 && !c.Violated(); k++ {
			h, res := p.play(c, r, b)
			c.Eval(1)
			if res.Panic != "" || res.Fatal != "" {
				c.Violate(map[string]any{"history so far": h.lines(), "program": p.String()}, "concurrent operations crash: %s", res.Bad())
			}
			c.Nontrivial(kit.Hash(res.Hash, p.String()))
		}
		if c.WantSample() {
			c.Sample(p.String())
		}
	})
}

// x02race runs under the race detector; its reports are the verdict.
func x02race(c *kit.Ctx) {
	c.Cases("storms", 0, c.N(160, 8000), func(r *kit.Rand, i int) {
		names := universe(r)
		b, what := builder(r)
		repo := visigoth.NewIndexRepo(b)
		other := visigoth.NewIndexRepo(b) // shares the analysis pipeline
		doc := 0
		for k := r.Size(0, 300); k > 0; k-- {
			repo.Put(Pick(r, names[:2]), docReq(doc))
			doc++
			repo.Alias(Pick(r, names), Pick(r, names))
		}
		n := 3 + r.IntN(6)
		each := 20 + r.IntN(60)
		prof := profileOf(r)
		var bodies []func()
		var shared chan func() // results consumed by another goroutine than the searcher
		if r.P(0.4) {
			shared = make(chan func(), 64)
		}
		for k := 0; k < n; k++ {
			rr := kit.NewRand(r.Uint64(), uint64(k), r.D)
			w := hot[prof]
			if rr.P(0.3) {
				w = hot["mixed"]
			}
			g := newGen(rr, names, w)
			g.nextDoc += 1_000_000 * (k + 1)
			bodies = append(bodies, func() {
				for j := 0; j < each; j++ {
					o := g.next()
					target := repo
					if rr.P(0.1) {
						target = other
					}
					c.Op("%s", o)
					switch {
					case o.Kind == "list":
						l := target.List()
						for z := range l {
							l[z] += "!"
						}
					case o.Kind == "aliases":
						a := target.ListAliases()
						for z := range a.Aliases {
							for y := range a.Aliases[z].Indices {
								a.Aliases[z].Indices[y] += "!"
							}
							_ = append(a.Aliases[z].Indices, "!")
						}
					case o.Kind == "search" && rr.P(0.5):
						st, err := target.Search(o.A, o.B, engineOf(o.Eng))
						if err != nil {
							continue
						}
						f := func() {
							for st.Next() {
								d := st.Data()
								_ = d.Document.ID() + d.Document.Raw()
							}
							_ = st.Close()
						}
						if shared == nil {
							f()
							continue
						}
						select {
						case shared <- f:
						default:
							f()
						}
					case o.Kind == "search" && rr.P(0.3):
						// an engine that looks at everything and spoils what it is handed
						_, _ = target.Search(o.A, o.B, func(ts []string, ix visigoth.Indexer) results {
							var out results
							for z := 0; z < ix.Len(); z++ {
								out = append(out, visigoth.SearchResult{Document: ix.Document(z)})
							}
							for _, t := range ts {
								l := ix.Indexed(t)
								for y := range l {
									l[y] = -1
								}
							}
							return out
						})
					case rr.P(0.05):
						_ = target.String()
					default:
						exec(target, o)
					}
					if shared != nil {
						select {
						case f := <-shared:
							f()
						default:
						}
					}
				}
			})
		}
		c.Quiet = true
		res := session(c, r, bodies...)
		c.Quiet = false
		c.Eval(n * each)
		c.Count("operations under the race detector", int64(n*each))
		if res.Panic != "" {
			c.Violate(map[string]any{"names": names, "profile": prof}, "concurrent operations crash: %s", res.Panic)
		}
		c.Nontrivial(kit.Hash(i, prof, n))
		if c.WantSample() {
			c.Sample(map[string]any{"clients": n, "operations each": each, "profile": prof, "analyzer": what, "names": names})
		}
	})
}

// ---- progress --------------------------------------------------------------

// probe runs one of each operation, so that a lock left behind shows.
func probe(names []string) []op {
	n := names[0]
	return []op{{Kind: "list"}, {Kind: "aliases"}, {Kind: "has", A: n}, {Kind: "hasalias", A: n}, {Kind: "dump"},
		{Kind: "search", A: n, Eng: "all"}, {Kind: "put", A: n, Doc: 900}, {Kind: "alias", A: "probe", B: n},
		{Kind: "put", A: "probe", Doc: 901}, {Kind: "search", A: "probe", B: "w0", Eng: "hits"}, {Kind: "unalias", A: "probe", B: n},
		{Kind: "alias", A: "probe", B: n}, {Kind: "unalias", A: "probe", B: ""}, {Kind: "rename", A: n, B: "probed"}, {Kind: "drop", A: "probed"}}
}

// fedIndex is an index of the user's that keeps its documents in a repository of
// its own, behind an alias. federated builds such indices.
type fedIndex struct{ repo *visigoth.IndexRepo }

func (f fedIndex) Put(d visigoth.DocRequest) visigoth.Index { f.repo.Put("in", d); return f }

func (f fedIndex) Search(terms string, e visigoth.Engine) (rs results) {
	s, err := f.repo.Search("in", terms, e)
	for err == nil && s.Next() {
		rs = append(rs, s.Data())
	}
	return rs
}

func (f fedIndex) String() string { return f.repo.String() }

func federated(b visigoth.Builder, depth int) visigoth.Builder {
	if depth > 1 {
		b = federated(b, depth-1)
	}
	return func(string) visigoth.Index {
		f := fedIndex{visigoth.NewIndexRepo(b)}
		for _, n := range []string{"one", "two", "three"} {
			f.repo.Put(n, visigoth.NewDocRequest("first", "w0 "+n))
			f.repo.Alias("in", n)
		}
		return f
	}
}

func x03(c *kit.Ctx) {
	if vsched.Mode != vsched.ModeControlled {
		c.Cases("free-running storms", 2_000_000, c.N(240, 12000), func(r *kit.Rand, i int) {
			names := universe(r)
			b, _ := builder(r)
			if i%8 == 5 {
				b = federated(b, 1)
			}
			repo := visigoth.NewIndexRepo(b)
			var bodies []func()
			if r.P(0.3) {
				names = append(names, "many", "many", "many")
				for k := r.Size(5, 40); k > 0; k-- {
					repo.Put("m"+kit.Itoa(k), docReq(k))
					repo.Alias("many", "m"+kit.Itoa(k))
				}
			}
			if i%120 == 5 { // a crowd at one alias of many indices
				for k := r.Size(3, 12); k > 0; k-- {
					for j := 0; j < 60; j++ {
						repo.Put("m"+kit.Itoa(k), docReq(j))
					}
					repo.Alias("crowded", "m"+kit.Itoa(k))
				}
				crowd := make([]func(), 400)
				for k := range crowd {
					o := op{Kind: "search", A: "crowded", B: "w0", Eng: Pick(r, []string{"hits", "linear", "all"})}
					if r.P(0.1) {
						o = op{Kind: "put", A: "crowded", Doc: 900 + k}
					}
					crowd[k] = func() {
						for j := 0; j < 3; j++ {
							c.Op("%s", o)
							exec(repo, o)
						}
					}
				}
				session(c, r, crowd...)
				c.Count("operations completed in crowds", int64(3*len(crowd)))
			}
			for k := 0; k < 8; k++ {
				rr := kit.NewRand(r.Uint64(), uint64(k), r.D)
				g := newGen(rr, names, hot[profileOf(rr)])
				bodies = append(bodies, func() {
					for j := 0; j < 60; j++ {
						o := g.next()
						c.Op("%s", o)
						exec(repo, o)
					}
				})
			}
			session(c, r, bodies...)
			for _, o := range probe(names) {
				c.Op("afterwards: %s", o)
				exec(repo, o)
			}
			c.Count("operations completed", 8*60)
			c.Eval(1)
			c.Nontrivial(kit.Hash(i))
		})
		return
	}
	verdict := func(res vsched.Result, log []string) bool {
		if res.Inconclusive != "" || c.Violated() {
			return false
		}
		if bad := res.Bad(); bad != "" {
			c.Violate(map[string]any{"operations": log}, "an operation does not return: %s", bad)
			return false
		}
		return true
	}
	c.Cases("sequences", 0, c.N(2400, 120000), func(r *kit.Rand, i int) {
		var log []string
		names := universe(r)
		b, _ := builder(r)
		if r.P(0.15) {
			b = federated(b, 1+r.IntN(2))
		}
		res := session(c, r, func() {
			repo := visigoth.NewIndexRepo(b)
			g := newGen(r, names, weights["all"])
			for k := r.Size(1, 60); k > 0; k-- {
				o := g.next()
				if r.P(0.15) { // failing on purpose
					o = Pick(r, []op{{Kind: "unalias", A: g.name(), B: "missing"}, {Kind: "unalias", A: "missing", B: g.name()}, {Kind: "unalias", A: "missing"},
						{Kind: "drop", A: "missing"}, {Kind: "rename", A: "missing", B: g.name()}, {Kind: "alias", A: g.name(), B: "missing"},
						{Kind: "search", A: "missing", B: "w0", Eng: "hits"}, {Kind: "rename", A: o.A, B: o.A}, {Kind: "alias", A: o.A, B: o.A}})
				}
				log = append(log, o.String())
				exec(repo, o)
				c.Eval(1)
			}
			for _, o := range probe(names) {
				log = append(log, "probe "+o.String())
				exec(repo, o)
				c.Eval(1)
			}
		})
		if verdict(res, log) {
			c.Nontrivial(kit.Hash(strings.Join(log, ";")))
			if c.WantSample() && len(log) < 40 {
				c.Sample(log)
			}
		}
	})
	c.Cases("programs", 1_000_000, c.N(1600, 80000), func(r *kit.Rand, i int) {
		p := newProgram(r, 2+r.IntN(4), 2+r.IntN(4), profileOf(r))
		for k := range p.clients {
			if r.P(0.4) {
				p.clients[k] = append(p.clients[k], Pick(r, []op{{Kind: "dump"}, {Kind: "unalias", A: "x", B: "missing"}, {Kind: "unalias", A: "missing", B: "a"}, {Kind: "search", A: "missing"}, {Kind: "rename", A: "missing", B: "a"}}))
			}
		}
		reps := 8
		if r.P(0.1) { // an alias of many indices, used by all
			reps = 3
			p.names = append(p.names, "many")
			for k := r.Size(5, 40); k > 0; k-- {
				p.setup = append(p.setup, op{Kind: "put", A: "m" + kit.Itoa(k), Doc: k}, op{Kind: "alias", A: "many", B: "m" + kit.Itoa(k)})
			}
			for k := range p.clients {
				for j := range p.clients[k] {
					if r.P(0.5) {
						p.clients[k][j] = Pick(r, []op{{Kind: "search", A: "many", B: "w0", Eng: "hits"}, {Kind: "search", A: "many", Eng: "all"}, {Kind: "put", A: "many", Doc: 50 + 10*k + j}, {Kind: "dump"}, {Kind: "drop", A: "m1"}})
					}
				}
			}
		}
		b, _ := builder(r)
		if r.P(0.15) {
			b = federated(b, 1)
			c.Count("programs over indices that are repositories themselves", 1)
		}
		for k := 0; k < reps && !c.Violated(); k++ {
			var repo *visigoth.IndexRepo
			log := []string{p.String()}
			if !verdict(session(c, r, func() {
				repo = visigoth.NewIndexRepo(b)
				for _, o := range p.setup {
					exec(repo, o)
				}
			}), log) {
				return
			}
			var bodies []func()
			for _, l := range p.clients {
				bodies = append(bodies, func() {
					for _, o := range l {
						exec(repo, o)
						c.Eval(1)
						vsched.Yield()
					}
				})
			}
			res := session(c, r, bodies...)
			if !verdict(res, log) {
				return
			}
			if !verdict(session(c, r, func() {
				for _, o := range probe(p.names) {
					exec(repo, o)
					c.Eval(1)
				}
			}), append(log, "then the probe")) {
				return
			}
			c.Nontrivial(kit.Hash(res.Hash, p.String()))
		}
	})
}

// ---- puts are neither lost nor duplicated --------------------------------------

type putPlan struct {
	target string
	doc    int
	look   bool
	order  int
}

func x04(c *kit.Ctx) {
	one := func(r *kit.Rand, clients, each, reps int, noise bool) {
		b, _ := builder(r)
		if vsched.Mode == vsched.ModeControlled && r.P(0.3) {
			b = func(name string) visigoth.Index {
				vsched.Yield()
				return slowIndex{visigoth.NewMemoryIndex(name, kit.SpaceTokenizer{}), func() int { return 1 }}
			}
		}
		als := map[string][]string{}
		old := []string{}
		for k := r.IntN(4); k > 0; k-- {
			n := "i" + kit.Itoa(k)
			old = append(old, n)
			a := "x" + kit.Itoa(r.IntN(2))
			als[a] = with(als[a], n)
			if r.P(0.3) {
				als["y"] = with(als["y"], n)
			}
		}
		targets := append([]string{"n0", "n0", "n1"}, old...)
		var as []string
		for a := range als {
			as = append(as, a)
		}
		sort.Strings(as)
		targets = append(targets, as...)
		if r.P(0.3) {
			targets = []string{"n0"}
		}
		resolve := func(n string) []string {
			if l := als[n]; len(l) > 0 {
				return l
			}
			return []string{n}
		}
		plans := make([][]putPlan, clients)
		doc := 100 + r.IntN(docKinds*40)
		same := 0.0 // how often a document is one that others put as well
		if r.P(0.3) {
			same = 0.6
		}
		shared := map[int]bool{}
		if same > 0 {
			shared[doc], shared[doc+1] = true, true
			doc += 2
		}
		firstShared := doc - len(shared)
		equal := r.P(0.35) // what was put is looked for by searches equal to others
		var looked []string
		want := map[string][]int{}
		for k := range plans {
			for j := 0; j < each; j++ {
				p := putPlan{Pick(r, targets), doc, r.P(0.3) || equal && r.P(0.5), j}
				if p.look {
					looked = append(looked, p.target)
				}
				if r.P(same) {
					p.doc, p.look = firstShared+r.IntN(2), false
				} else {
					doc++
				}
				plans[k] = append(plans[k], p)
				for _, n := range resolve(p.target) {
					want[n] = append(want[n], p.doc)
				}
			}
		}
		wit := func(extra any) any {
			w := map[string]any{"aliases": als, "detail": extra}
			if each < 10 {
				w["plans"] = fmt.Sprint(plans)
			}
			return w
		}
		for rep := 0; rep < reps && !c.Violated(); rep++ {
			var repo *visigoth.IndexRepo
			pre := map[string][]int{}
			res := session(c, r, func() {
				repo = visigoth.NewIndexRepo(b)
				for k, n := range old {
					repo.Put(n, docReq(k))
					pre[n] = []int{k}
				}
				repo.Put("noise", docReq(50))
				for _, a := range as {
					for _, n := range als[a] {
						repo.Alias(a, n)
					}
				}
			})
			if !judge(c, res, wit(nil)) {
				return
			}
			bodies := []func(){}
			for k := range plans {
				bodies = append(bodies, func() {
					for _, p := range plans[k] {
						c.Op("Put(%q, doc %d)", p.target, p.doc)
						repo.Put(p.target, docReq(p.doc))
						c.Count("puts", 1)
						if p.look {
							n := len(resolve(p.target))
							if equal { // a search that others make as well
								x := exec(repo, op{Kind: "search", A: p.target, Eng: "all"})
								found := 0
								for _, d := range x.Docs {
									if d == p.doc {
										found++
									}
								}
								c.Eval(1)
								if x.Err || x.Bad != "" || found != n {
									c.Fail(wit(x.String()), "after Put(%q, doc %d) returned, the match-all search finds it %d times, want %d", p.target, p.doc, found, n)
								}
								continue
							}
							x := exec(repo, op{Kind: "search", A: p.target, B: "id" + kit.Itoa(p.doc), Eng: Pick(kit.NewRand(uint64(p.doc), 1, r.D), []string{"hits", "linear"})})
							if wordless(p.doc) {
								n = 0
							}
							c.Eval(1)
							if x.Err || x.Bad != "" || len(x.Docs) != n {
								c.Fail(wit(x.String()), "after Put(%q, doc %d) returned, a search for that document finds it %d times, want %d", p.target, p.doc, len(x.Docs), n)
							}
						}
					}
				})
			}
			if equal {
				bodies = append(bodies, func() {
					for _, n := range looked {
						exec(repo, op{Kind: "search", A: n, Eng: "all"})
						vsched.Yield()
					}
				})
			}
			if noise {
				ops := []op{{Kind: "alias", A: "unrelated", B: "noise"}, {Kind: "list"}, {Kind: "aliases"}, {Kind: "rename", A: "noise", B: "noise2"}, {Kind: "drop", A: "noise2"}, {Kind: "search", A: "n0", Eng: "all"}, {Kind: "unalias", A: "unrelated", B: ""}, {Kind: "put", A: "noise", Doc: 51}, {Kind: "drop", A: "noise"}, {Kind: "has", A: "n0"}, {Kind: "unalias", A: "unrelated", B: "noise2"}, {Kind: "drop", A: "missing"}, {Kind: "rename", A: "missing", B: "missing2"}}
				r.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
				bodies = append(bodies, func() {
					for _, o := range ops {
						exec(repo, o)
						vsched.Yield()
					}
				})
			}
			res = session(c, r, bodies...)
			if c.Violated() {
				return
			}
			if res.Bad() != "" || res.Inconclusive != "" {
				c.Count("runs that did not complete (judged by X02 and X03)", 1)
				return
			}
			c.Nontrivial(kit.Hash(res.Hash, fmt.Sprint(plans), rep))
			session(c, r, func() {
				for n, ids := range want {
					x := exec(repo, op{Kind: "search", A: n, Eng: "all"})
					c.Eval(1)
					all := append(append([]int{}, pre[n]...), ids...)
					if x.Err || x.Bad != "" || !eqInts(sorted(x.Docs), sorted(all)) {
						c.Fail(wit(fmt.Sprintf("index %q holds %s, was put %v", n, x, all)), "index %q holds %d documents of the %d put into it (or other ones)", n, len(x.Docs), len(all))
					}
					at := map[int]int{}
					for p, d := range x.Docs {
						at[d] = p
					}
					for k := range plans {
						lastAt := -1
						for _, p := range plans[k] {
							if !has(resolve(p.target), n) || shared[p.doc] {
								continue
							}
							c.Eval(1)
							if at[p.doc] < lastAt {
								c.Fail(wit(x.String()), "index %q does not keep the order in which one goroutine put its documents", n)
							}
							lastAt = at[p.doc]
						}
					}
					// found by their words
					step := 1 + len(all)/8
					for z := 0; z < len(all); z += step {
						for _, e := range []string{"hits", "linear"} {
							x := exec(repo, op{Kind: "search", A: n, B: docText(all[z]), Eng: e})
							c.Eval(1)
							if wordless(all[z]) || shared[all[z]] {
								continue
							}
							if x.Err || x.Bad != "" || !eqInts(x.Docs, []int{all[z]}) {
								c.Fail(wit(x.String()), "document %d put into index %q is not found there by its words (%s search)", all[z], n, e)
							}
						}
					}
				}
			})
			if c.WantSample() && each < 6 {
				c.Sample(fmt.Sprint("aliases ", als, " puts by client (target, document, searched for at once, position): ", plans))
			}
		}
	}
	if vsched.Mode == vsched.ModeControlled {
		c.Cases("schedules", 0, c.N(1800, 90000), func(r *kit.Rand, i int) { one(r, 2+r.IntN(3), 1+r.IntN(3), 8, r.P(0.4)) })
		return
	}
	c.Cases("volume", 1_000_000, c.N(48, 2400), func(r *kit.Rand, i int) { one(r, 8, 40+r.IntN(120), 2, true) })
	c.Cases("first puts", 2_000_000, c.N(1600, 80000), func(r *kit.Rand, i int) { one(r, 8, 1+r.IntN(3), 6, false) })
}

// ---- alias writes are atomic to readers ------------------------------------------

// inView looks, from inside a search, whether every document is indexed under
// all of its words.
func inView(bad *string) visigoth.Engine {
	return func(_ []string, ix visigoth.Indexer) results {
		n := ix.Len()
		vsched.Yield()
		var out results
		for i := 0; i < n; i++ {
			d := ix.Document(i)
			out = append(out, visigoth.SearchResult{Document: d})
			id, b := docID(d)
			if b != "" {
				*bad = b
				continue
			}
			for z, w := range strings.Fields(docText(id)) {
				if z > 40 {
					break
				}
				found := false
				for _, p := range ix.Indexed(w) {
					if p == i {
						found = true
					}
				}
				if !found {
					*bad = fmt.Sprintf("a search sees %q at position %d, not indexed under its word %q", d.Content, i, w)
				}
			}
			vsched.Yield()
		}
		for _, w := range []string{"w0", "w1", "w2", "x0", "x1"} {
			for _, p := range ix.Indexed(w) {
				if p >= ix.Len() {
					*bad = fmt.Sprintf("a search sees word %q indexed at position %d of %d documents", w, p, ix.Len())
				} else if id, b := docID(ix.Document(p)); b != "" || !docMatches(id, w) {
					*bad = fmt.Sprintf("a search sees word %q indexed at position %d, which holds %q", w, p, ix.Document(p).Content)
				}
			}
		}
		return out
	}
}

func x05(c *kit.Ctx) {
	one := func(r *kit.Rand, writers, puts, readers, reads, reps int) {
		k := 2 + r.IntN(3)
		if r.P(0.12) {
			k = r.Size(5, 24)
			reps, reads, puts = min(reps, 3), min(reads, 12), min(puts, 10)
		}
		b, _ := builder(r)
		if vsched.Mode == vsched.ModeControlled && r.P(0.4) {
			var n int
			b = func(name string) visigoth.Index {
				return slowIndex{visigoth.NewMemoryIndex(name, kit.SpaceTokenizer{}), func() int { n++; return n * 7 % 5 }}
			}
		}
		var names, sub []string
		for j := 0; j < k; j++ {
			names = append(names, "i"+kit.Itoa(j))
		}
		for _, n := range names {
			if r.P(0.7) {
				sub = append(sub, n)
			}
		}
		if len(sub) < 2 {
			sub = names[:2]
		}
		off := 100 + r.IntN(docKinds*40)
		churn := r.P(0.3) // other aliases come and go meanwhile
		for rep := 0; rep < reps && !c.Violated(); rep++ {
			var repo *visigoth.IndexRepo
			var mu sync.Mutex
			var log []string
			note := func(f string, a ...any) {
				mu.Lock()
				if len(log) < 200 {
					log = append(log, fmt.Sprintf(f, a...))
				}
				mu.Unlock()
			}
			wit := func() any {
				mu.Lock()
				defer mu.Unlock()
				return map[string]any{"indices": names, "second alias over": sub, "events": append([]string{}, log...)}
			}
			res := session(c, r, func() {
				repo = visigoth.NewIndexRepo(b)
				for j, n := range names {
					repo.Put(n, docReq(j))
					repo.Alias("x", n)
				}
				for _, n := range sub {
					repo.Alias("y", n)
				}
			})
			if !judge(c, res, wit()) {
				return
			}
			var bodies []func()
			for w := 0; w < writers; w++ {
				bodies = append(bodies, func() {
					for j := 0; j < puts; j++ {
						d := off + w*puts + j
						c.Op("Put(x, doc %d)", d)
						repo.Put("x", docReq(d))
						note("put doc %d through the alias returned", d)
						vsched.Yield()
					}
				})
			}
			for q := 0; q < readers; q++ {
				rr := kit.NewRand(r.Uint64(), uint64(q), r.D)
				bodies = append(bodies, func() {
					seen := map[int]bool{}
					for j := 0; j < reads; j++ {
						a, size := "x", k
						if rr.P(0.4) {
							a, size = "y", len(sub)
						}
						o := op{Kind: "search", A: a, B: Pick(rr, []string{"w0", "w1", "w2", "x0", "x1"}), Eng: Pick(rr, []string{"all", "hits", "linear"})}
						bad := ""
						var x result
						view := rr.P(0.35)
						c.Op("%s", o)
						if view {
							bads := make([]string, 64)
							var nx atomic.Int32
							st, err := repo.Search(a, "w0", func(ts []string, ix visigoth.Indexer) results {
								return inView(&bads[int(nx.Add(1))%64])(ts, ix)
							})
							if err != nil {
								c.Fail(wit(), "a search on the alias fails: %v", err)
							}
							o.Eng = "all"
							x.Docs = drain(st.Next, st.Data, st.Err, &x.Bad)
							for _, y := range bads {
								if y != "" {
									bad = y
								}
							}
						} else {
							x = exec(repo, o)
						}
						c.Eval(1)
						c.Count("concurrent searches", 1)
						note("reader %d: %s -> %v", q, o, x.Docs)
						if bad != "" {
							c.Fail(wit(), "%s", bad)
						}
						if x.Err || x.Bad != "" {
							c.Fail(wit(), "a search on the alias fails: %s", x)
						}
						cnt := map[int]int{}
						for _, d := range x.Docs {
							cnt[d]++
						}
						for d, n := range cnt {
							if d >= 100 && n != size {
								c.Fail(wit(), "a search covering %d indices returns document %d, put through the alias, from %d of them", size, d, n)
							}
						}
						if o.Eng == "all" {
							for d := range seen {
								if cnt[d] == 0 {
									c.Fail(wit(), "document %d, seen by an earlier search, is missing from a later one", d)
								}
							}
						} else {
							for d := range seen {
								if docMatches(d, o.B) && cnt[d] == 0 {
									c.Fail(wit(), "document %d, seen by an earlier search, is not matched by its word %q in a later one", d, o.B)
								}
							}
						}
						for d := range cnt {
							if d >= 100 && !seen[d] {
								seen[d] = true
								if wordless(d) {
									break
								}
								// visible to one engine: matched by all of its words
								for _, e := range []string{"hits", "linear"} {
									y := exec(repo, op{Kind: "search", A: a, B: docText(d), Eng: e})
									c.Eval(1)
									if y.Err || len(y.Docs) != size {
										c.Fail(wit(), "document %d is visible to one engine, but %s search by all of its words finds it in %d of %d indices", d, e, len(y.Docs), size)
									}
								}
								break
							}
						}
						if len(cnt) > 0 && len(seen) > 0 {
							c.Count("searches that saw a concurrently put document", 1)
						}
						vsched.Yield()
					}
				})
			}
			if churn {
				bodies = append(bodies, func() {
					for j := 0; j < 4; j++ {
						for _, o := range []op{{Kind: "alias", A: "z", B: names[j%k]}, {Kind: "unalias", A: "z", B: ""}, {Kind: "put", A: "elsewhere", Doc: 7}, {Kind: "drop", A: "elsewhere"}} {
							exec(repo, o)
							vsched.Yield()
						}
					}
				})
			}
			res = session(c, r, bodies...)
			if c.Violated() {
				return
			}
			if res.Bad() != "" || res.Inconclusive != "" {
				c.Count("runs that did not complete (judged by X02 and X03)", 1)
				return
			}
			c.Nontrivial(kit.Hash(res.Hash, strings.Join(log, "\n")))
			if c.WantSample() && len(log) < 30 {
				c.Sample(log)
			}
		}
	}
	if vsched.Mode == vsched.ModeControlled {
		c.Cases("schedules", 0, c.N(1200, 60000), func(r *kit.Rand, i int) {
			one(r, 1+r.IntN(2), 1+r.IntN(3), 1+r.IntN(2), 2+r.IntN(3), 8)
		})
		return
	}
	c.Cases("free-running", 1_000_000, c.N(160, 8000), func(r *kit.Rand, i int) { one(r, 3, 30, 4, 40, 1) })
}

// ---- hot swap --------------------------------------------------------------

func x06(c *kit.Ctx) {
	// "live" is the alias, "perm" an index attached throughout, "g0", "g1", ...
	// the generations swapped through the alias
	one := func(r *kit.Rand, gens, users, each, reps int) {
		b, _ := builder(r)
		perm := r.P(0.6)
		lives := []string{"live"}
		if r.P(0.4) {
			lives = append(lives, "live2") // a second alias, swapped alike
		}
		style := make([]int, gens+1)
		for j := range style {
			style[j] = r.IntN(4)
		}
		reuse := r.P(0.3)
		off := 1000 + r.IntN(docKinds*40)
		seed := r.Uint64()
		for rep := 0; rep < reps && !c.Violated(); rep++ {
			h := &history{}
			var repo *visigoth.IndexRepo
			var mu sync.Mutex
			putDone := []int{}
			wit := func() any {
				mu.Lock()
				defer mu.Unlock()
				h.mu.Lock()
				defer h.mu.Unlock()
				l := h.lines()
				if len(l) > 150 {
					l = l[len(l)-150:]
				}
				return map[string]any{"history": l}
			}
			permDocs := []int{}
			res := session(c, r, func() {
				repo = visigoth.NewIndexRepo(b)
				if perm {
					h.run(0, repo, op{Kind: "put", A: "perm", Doc: 0})
					for _, l := range lives {
						h.run(0, repo, op{Kind: "alias", A: l, B: "perm"})
					}
					permDocs = []int{0}
				}
				h.run(0, repo, op{Kind: "put", A: "g0", Doc: 1})
				for _, l := range lives {
					h.run(0, repo, op{Kind: "alias", A: l, B: "g0"})
				}
			})
			if !judge(c, res, wit()) {
				return
			}
			var bodies []func()
			bodies = append(bodies, func() { // the operator
				doc := 2
				cur := "g0"
				ok := func(o op) {
					x := h.run(1, repo, o)
					c.Eval(1)
					if !x.Ok && o.Kind != "put" {
						c.Fail(wit(), "%s fails during the swap", o)
					}
					vsched.Yield()
				}
				for j := 1; j <= gens; j++ {
					next := "g" + kit.Itoa(j)
					if reuse {
						next = "g" + kit.Itoa(j%2+2*(j%3))
						if next == cur {
							next = "h" + kit.Itoa(j)
						}
					}
					c.Op("swap %s for %s", cur, next)
					switch style[j] {
					case 0, 1, 2:
						ok(op{Kind: "put", A: next, Doc: doc})
						doc++
						for _, l := range lives {
							ok(op{Kind: "alias", A: l, B: next})
						}
						if style[j] != 1 {
							for _, l := range lives {
								ok(op{Kind: "unalias", A: l, B: cur})
							}
						}
						if style[j] == 0 {
							ok(op{Kind: "drop", A: cur})
						} else {
							if style[j] == 1 {
								ok(op{Kind: "drop", A: cur})
							} else {
								ok(op{Kind: "rename", A: cur, B: "old" + kit.Itoa(j)})
							}
						}
					case 3:
						ok(op{Kind: "rename", A: cur, B: next})
					}
					cur = next
				}
				if perm {
					ok(op{Kind: "rename", A: "perm", B: "perm2"})
				}
			})
			for u := 0; u < users; u++ {
				rr := kit.NewRand(seed, uint64(u), r.D)
				bodies = append(bodies, func() {
					for j := 0; j < each; j++ {
						live := lives[rr.IntN(len(lives))]
						if rr.P(0.4) {
							d := off + u*100_000 + j
							c.Op("Put(%s, doc %d)", live, d)
							h.run(u+2, repo, op{Kind: "put", A: live, Doc: d})
							mu.Lock()
							putDone = append(putDone, d)
							mu.Unlock()
						} else {
							o := op{Kind: "search", A: live, Eng: "all"}
							if rr.P(0.3) {
								o.B, o.Eng = Pick(rr, []string{"w0", "w1", "w2"}), Pick(rr, []string{"hits", "linear"})
							}
							if rr.P(0.1) {
								o = op{Kind: "hasalias", A: live}
							}
							mu.Lock()
							before := append([]int{}, putDone...)
							mu.Unlock()
							c.Op("%s", o)
							x := h.run(u+2, repo, o)
							c.Eval(1)
							c.Count("requests through the alias", 1)
							if o.Kind == "hasalias" {
								if !x.Ok {
									c.Fail(wit(), "the alias disappears during the swap")
								}
								continue
							}
							if x.Err || x.Bad != "" {
								c.Fail(wit(), "a search through the alias fails during the swap: %s", x)
							}
							if o.Eng == "all" && len(x.Docs) == 0 {
								c.Fail(wit(), "a search through the alias finds no index during the swap")
							}
							if perm { // attached throughout: all its documents, exactly once there
								cnt := map[int]int{}
								for _, d := range x.Docs {
									cnt[d]++
								}
								for _, d := range append(before, permDocs...) {
									if (o.Eng == "all" || docMatches(d, o.B)) && cnt[d] == 0 {
										c.Fail(wit(), "a search through the alias misses document %d of an index that stays attached", d)
									}
								}
								if cnt[0] > 1 {
									c.Fail(wit(), "a search through the alias returns a document of one index twice")
								}
							}
						}
						vsched.Yield()
					}
				})
			}
			res = session(c, r, bodies...)
			if c.Violated() {
				return
			}
			if bad := res.Bad(); bad != "" {
				c.Violate(wit(), "requests through the alias do not complete during the swap: %s", bad)
				return
			}
			if res.Inconclusive != "" {
				return
			}
			session(c, r, func() {
				c.Eval(1)
				for _, l := range lives {
					if x := h.run(0, repo, op{Kind: "has", A: l}); x.Ok {
						c.Fail(wit(), "an index named like the alias came into being during the swap")
					}
				}
				h.run(0, repo, op{Kind: "list"})
				h.run(0, repo, op{Kind: "aliases"})
				if perm {
					x := h.run(0, repo, op{Kind: "search", A: "perm2", Eng: "all"})
					want := append([]int{0}, putDone...)
					if !eqInts(sorted(x.Docs), sorted(want)) {
						c.Fail(wit(), "the index attached throughout holds %v, was put %v through the alias", sorted(x.Docs), sorted(want))
					}
				}
				for _, n := range repo.List() {
					h.run(0, repo, op{Kind: "search", A: n, Eng: "all"})
				}
			})
			if c.Violated() {
				return
			}
			// and as a whole
			if len(h.ops) <= 40 {
				c.Op("linearizability check")
				switch linearizable(h.ops) {
				case porcupine.Illegal:
					c.Fail(wit(), "no order of the swap's steps and the requests through the alias explains what the requests saw")
				case porcupine.Unknown:
					c.Inconclusive("linearizability check timed out")
				}
				c.Eval(1)
			}
			if n := h.overlaps(); n > 0 {
				c.Count("overlapping pairs of operations", int64(n))
				c.Nontrivial(kit.Hash(res.Hash, strings.Join(h.lines(), "\n")))
			}
			if c.WantSample() && len(h.ops) < 30 {
				c.Sample(h.lines())
			}
		}
	}
	if vsched.Mode == vsched.ModeControlled {
		c.Cases("schedules", 0, c.N(1000, 50000), func(r *kit.Rand, i int) { one(r, 1+r.IntN(2), 1+r.IntN(3), 2+r.IntN(4), 8) })
		return
	}
	c.Cases("free-running", 1_000_000, c.N(200, 10000), func(r *kit.Rand, i int) { one(r, 12, 5, 40, 1) })
}

// ---- a shared pipeline ---------------------------------------------------------

func a04(c *kit.Ctx) {
	c.Cases("shared pipeline", 0, c.N(120, 6000), func(r *kit.Rand, i int) {
		an := Pick(r, kit.Analyzers)
		if r.P(0.5) {
			an = kit.Analyzers[4]
		}
		tok := an.Make()
		vocab := r.Vocab(40)
		if r.P(0.3) {
			for k := 0; k < 500; k++ {
				vocab = append(vocab, Pick(r, kit.Spanish)+Pick(r, kit.StopList))
			}
		}
		n := 3 + r.IntN(6)
		var bodies []func()
		fixed := []string{}
		for k := 0; k < 6; k++ {
			fixed = append(fixed, r.Text(vocab, r.Size(1, 30), false))
		}
		for k := 0; k < n; k++ {
			rr := kit.NewRand(r.Uint64(), uint64(k), r.D)
			bodies = append(bodies, func() {
				type kept struct{ got, want []string }
				var keep []kept
				own := visigoth.NewMemoryIndex("own", tok) // its own index on the shared pipeline
				ref := &kit.RefIndex{Ref: an.Ref}
				for len(keep) < 50 {
					text := rr.Text(vocab, rr.Size(1, 30), false)
					if rr.P(0.3) {
						text = Pick(rr, fixed) // the same texts everywhere
					} else if rr.P(0.1) {
						text = rr.Bytes(10)
					}
					c.Op("tokenize")
					if rr.P(0.2) {
						own.Put(visigoth.NewDocRequest("d", text))
						ref.Put("d", text, text)
						continue
					}
					got := tok.Tokenize(text)
					want := an.Ref(text)
					c.Eval(1)
					if !eqStrings(got, want) {
						c.Fail(map[string]any{"analyzer": an.Name, "text": kit.Clip(text), "got": clips(got), "want": clips(want)}, "a pipeline shared by %d goroutines answers wrongly", n)
					}
					keep = append(keep, kept{got, want})
				}
				for _, x := range keep {
					if !eqStrings(x.got, x.want) {
						c.Fail(map[string]any{"analyzer": an.Name, "was": clips(x.want), "is": clips(x.got)}, "an answer of a shared pipeline changed afterwards")
					}
				}
				for _, e := range engines[:2] {
					q := Pick(rr, vocab)
					got := flatten(own.Search(q, e.fn))
					var want []string
					for _, z := range ref.Match(an.Ref(q)) {
						want = append(want, ref.Docs[z].Content)
					}
					c.Eval(1)
					var g []string
					for _, f := range got {
						g = append(g, f.Content)
					}
					if !eqStrings(g, want) {
						c.Fail(map[string]any{"analyzer": an.Name, "query": q, "got": clips(g), "want": clips(want)}, "an index on a shared pipeline answers wrongly")
					}
				}
			})
		}
		c.Quiet = true
		res := session(c, r, bodies...)
		c.Quiet = false
		c.Eval(n * 50)
		c.Count("concurrent analyses", int64(n*50))
		if res.Panic != "" {
			c.Violate(map[string]any{"analyzer": an.Name}, "a pipeline shared by %d goroutines crashes: %s", n, res.Panic)
		}
		c.Nontrivial(kit.Hash(fixed, an.Name, n))
		if c.WantSample() {
			c.Sample(map[string]any{"analyzer": an.Name, "goroutines": n, "texts": fixed[:2]})
		}
	})
	c.Cases("shared index", 1_000_000, c.N(120, 6000), func(r *kit.Rand, i int) {
		h := newHist(c, r, Pick(r, kit.Analyzers), false)
		for k := r.Size(1, 120); k > 0; k-- {
			h.putRandom(1 + r.IntN(8))
		}
		type qa struct {
			q    string
			e    int
			want []flat
		}
		var qs []qa
		for k := 0; k < 12; k++ {
			q := h.query()
			e := r.IntN(len(engines))
			qs = append(qs, qa{q, e, h.want(engines[e].name, h.an.Ref(q))})
		}
		var custom []string
		for _, d := range h.ref.Docs {
			custom = append(custom, d.Content)
		}
		n := 3 + r.IntN(6)
		var bodies []func()
		for k := 0; k < n; k++ {
			rr := kit.NewRand(r.Uint64(), uint64(k), r.D)
			bodies = append(bodies, func() {
				for j := 0; j < 40; j++ {
					x := Pick(rr, qs)
					c.Op("search")
					c.Eval(1)
					if rr.P(0.1) {
						h.ix.Search(x.q, func(ts []string, ix visigoth.Indexer) results {
							for z := range ts {
								for _, p := range ix.Indexed(ts[z]) {
									if p >= ix.Len() || ix.Document(p).Content != custom[p] {
										c.Fail(h.witness(), "a search engine sees a wrong document at position %d", p)
									}
								}
								ts[z] = "spoilt"
							}
							return nil
						})
						_ = h.ix.String()
						continue
					}
					rs := h.ix.Search(x.q, engines[x.e].fn)
					if got := flatten(rs); !sameSeq(got, x.want) {
						c.Fail(h.witness("got ", show(got), "; want ", show(x.want)), "one of %d concurrent %s searches for %s answers wrongly", n, engines[x.e].name, kit.Clip(x.q))
					}
					for z := range rs { // its own result
						rs[z].Hits = -1
					}
				}
			})
		}
		c.Quiet = true
		res := session(c, r, bodies...)
		c.Quiet = false
		c.Eval(n * 40)
		c.Count("concurrent searches", int64(n*40))
		if res.Panic != "" {
			c.Violate(h.witness(), "%d goroutines searching one index: crash: %s", n, res.Panic)
		}
		c.Nontrivial(kit.Hash(strings.Join(h.log, "\n"), n))
	})
}
