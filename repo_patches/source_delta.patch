From 196aa5d0c519b376f967eacbcf2043d7ff3e1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:27 +0000
Subject: [PATCH 01/15] fix: release the locks when UnAlias finds no such index
 or alias

---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From caab21aa90ee840c921c786a5b0c4a70bd3a5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:27 +0000
Subject: [PATCH 02/15] fix: remove an alias when UnAlias detaches its last
 index

An alias left without indices silently swallowed every document put through it.
---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From bc54fbd722dc9e57105d574e0e0bfdd55f1fc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:27 +0000
Subject: [PATCH 03/15] fix: keep the index when it is renamed to its own name

---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..fe63b66 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -146,6 +146,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From bdb0c0f1d0fddabec7188c3beb97befbbe0a00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:28 +0000
Subject: [PATCH 04/15] fix: hold the alias lock while Rename rewrites aliases

---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index fe63b66..00bb496 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -154,6 +154,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
+	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
 		for i, indexName := range indices {
 			if indexName == old {
@@ -161,6 +162,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 			}
 		}
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From 7845415b47c2b07bfcc21386b893c6b761801b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:28 +0000
Subject: [PATCH 05/15] fix: do not list an index twice in an alias after
 Rename onto an aliased index

Put through such an alias wrote to the same index twice, concurrently.
---
 repos_repo.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 00bb496..3aef132 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -155,12 +155,20 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	delete(h.indices, old)
 	// 3. Update indices to
 	h.aliasesMu.Lock()
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
+	for alias, indices := range h.aliases {
+		var newIndices []string
+		renamed := false
+		for _, indexName := range indices {
 			if indexName == old {
-				indices[i] = new
+				newIndices = append(newIndices, new)
+				renamed = true
+			} else if indexName != new { // the replaced index, listed once
+				newIndices = append(newIndices, indexName)
 			}
 		}
+		if renamed {
+			h.aliases[alias] = newIndices
+		}
 	}
 	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
-- 
2.43.0


From b48242d0aed33bc4a009187497feefb1f1001c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:29 +0000
Subject: [PATCH 06/15] fix: return copies of the alias lists from ListAliases

---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 3aef132..37db4b4 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -289,7 +289,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From 1f4be6c6c4b93414d960f25e14eff7abc8b7e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:29 +0000
Subject: [PATCH 07/15] fix: resolve the index name in Put under the write lock

Concurrent first puts to an index each created it, and all but one document were lost.
---
 repos_repo.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 37db4b4..7fb6235 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -230,8 +230,8 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
@@ -296,12 +296,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices resolves a name; indicesMu must be held
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -309,14 +308,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From 0c809314436da8075d9d09acbcf932e80d747543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 08/15] fix: check for the index in Drop under the lock that
 removes it

Concurrent drops of one index could all report success.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 7fb6235..9e82e63 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -254,14 +254,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From ae7b9ecae3fd7579d0a7858b4b6fd3bbc4262e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 09/15] fix: combine the results of aliased indices in a
 deterministic order

---
 repos_repo.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 9e82e63..c182c1c 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -210,22 +210,22 @@ func (h *IndexRepo) Search(
 	}
 
 	var (
-		wg     sync.WaitGroup
-		result slices.Slice[SearchResult]
+		wg      sync.WaitGroup
+		result  slices.Slice[SearchResult]
+		results = make([]slices.Slice[SearchResult], len(indices))
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			results[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range results {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From 17f1a79dc2703249c7c65d44f83e837eb8f7e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 10/15] fix: count hits per stored document instead of per
 document name

Two documents with one name shared their hits, so a query matched neither of which held all tokens.
---
 search_hits_search.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..8cbf687 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using document index as key for uniqueness)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -59,15 +59,13 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
 			doc := indexer.Document(index)
-			hashKey := doc.Hash()
-
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
+				docHits[index] = SearchResult{
 					Document: doc,
 					Hits:     1,
 				}
@@ -81,11 +79,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From b1ca3e105bcdcd72e8c3bf520c1add0e43976aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 11/15] fix: order equal hit counts by document order in
 HitsSearch

As documented in the README and in the comments; they were ordered by document name.
---
 search_hits_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index 8cbf687..cc1147d 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -86,7 +86,9 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	}
 
 	// Phase 3: Sort by relevance (hit count descending, then by document order for ties)
-	sort.Sort(results)
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].Hits > results[j].Hits
+	})
 
 	return slices.Slice[SearchResult](results)
 }
-- 
2.43.0


From d432da68c1b7e47eddae17d77456229cbc88aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 12/15] fix: count a token repeated in the query once in
 HitsSearch

Hits is documented as the number of unique search tokens found.
---
 search_hits_search.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/search_hits_search.go b/search_hits_search.go
index cc1147d..f0cca7f 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -49,7 +49,15 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
+	unique := make(map[string]struct{}, len(tokens))
 	for _, token := range tokens {
+		// A token repeated in the query counts only once
+		if _, seen := unique[token]; seen {
+			threshold--
+			continue
+		}
+		unique[token] = struct{}{}
+
 		// Get all document indices that contain this token
 		indexed := indexer.Indexed(token)
 		if indexed == nil {
-- 
2.43.0


From 2e2fb75db50d91f615afaf2acc11bd06bdbaa87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 13/15] fix: compute RV for words without R1

RV does not depend on R1: for tren, RV is n although R1 is empty.
---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0


From fe2d85103cca85034ed22c539ca5329b7b5d8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 14/15] fix: copy the list of filters a pipeline is made with

---
 analyze_compose.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyze_compose.go b/analyze_compose.go
index bd75c69..41cf6d3 100644
--- a/analyze_compose.go
+++ b/analyze_compose.go
@@ -16,6 +16,6 @@ func (p *TokenizationPipeline) Tokenize(text string) []string {
 func NewTokenizationPipeline(t Tokenizer, f ...Filter) *TokenizationPipeline {
 	return &TokenizationPipeline{
 		tokenizer: t,
-		filters:   f,
+		filters:   append([]Filter{}, f...), // the caller may go on using its list
 	}
 }
-- 
2.43.0


From 0f62610096d0e90bde32f31d98dfd279c842daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:44 +0000
Subject: [PATCH 15/15] fix: look only at the last position when listing a
 document under a word

---
 index_memory_index.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/index_memory_index.go b/index_memory_index.go
index 658056a..ce17059 100644
--- a/index_memory_index.go
+++ b/index_memory_index.go
@@ -46,13 +46,11 @@ func (mi *MemoryIndex) Put(payload DocRequest) Index {
 	next := len(mi.Docs)
 	newDoc := NewDoc(payload.ID(), payload.Raw())
 	mi.Docs = append(mi.Docs, newDoc)
-tokenLoop:
 	for _, tok := range tokens {
 		indexedDocs := mi.InvertedIndex[tok]
-		for _, docIndex := range indexedDocs {
-			if docIndex == next {
-				continue tokenLoop
-			}
+		// Positions ascend: if this document is listed already, it is the last one
+		if n := len(indexedDocs); n > 0 && indexedDocs[n-1] == next {
+			continue
 		}
 		mi.InvertedIndex[tok] = append(indexedDocs, next)
 	}
-- 
2.43.0

