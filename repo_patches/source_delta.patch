From 0be805272d8b0eb182cf935113145196a37130cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 01/64] fix: split a search at a trailing semicolon

A single semicolon at the end of a search ended up inside the last part
("name=x;" looked for "x;" and "__ckube_as__:a=b;" did not parse).
---
 page/page.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..594d96c 100644
--- a/page/page.go
+++ b/page/page.go
@@ -35,9 +35,9 @@ func (p *Paginate) SearchParts() []string {
 	trimPart := func(origin string) string {
 		return strings.ReplaceAll(origin, ";;", ";")
 	}
-	for i := 0; i < l-1; i++ {
+	for i := 0; i < l; i++ {
 		if search[i] == constants.SearchPartsSep {
-			if search[i+1] == constants.SearchPartsSep {
+			if i+1 < l && search[i+1] == constants.SearchPartsSep {
 				// double ;, skip
 				i += 1
 				continue
-- 
2.43.0


From 563fbec305860061a90ea42b25169f37fedc3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 02/64] fix: match searches against the index value itself, not
 its Go-quoted form

strconv.Quote escapes quotes, backslashes, control and non-printable
characters, so values holding them could not be found, and text such as
"n" or "u200b" found values that do not contain it.
---
 page/page.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/page/page.go b/page/page.go
index 594d96c..d519942 100644
--- a/page/page.go
+++ b/page/page.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/DaoCloud/ckube/common/constants"
@@ -65,6 +64,15 @@ func parseValue(v string) (string, bool) {
 	return v, false
 }
 
+// valueMatches reports whether the index value v satisfies the search text:
+// a text in double quotes must equal it, any other must be contained in it.
+func valueMatches(v, text string) bool {
+	if len(text) >= 2 && strings.HasPrefix(text, `"`) && strings.HasSuffix(text, `"`) {
+		return v == text[1:len(text)-1]
+	}
+	return strings.Contains(`"`+v+`"`, text)
+}
+
 func Match(m map[string]string, searchParts []string) (bool, error) {
 	if len(searchParts) != 1 {
 		matched := 0
@@ -115,7 +123,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 		if v, ok := m[key]; !ok {
 			return false, fmt.Errorf("unexpected search key: %s", key)
 		} else {
-			vv := strings.Contains(strconv.Quote(v), value)
+			vv := valueMatches(v, value)
 			if reverse {
 				return !vv, nil
 			}
@@ -124,7 +132,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	}
 	// fuzzy search
 	for _, v := range m {
-		vv := strings.Contains(strconv.Quote(v), value)
+		vv := valueMatches(v, value)
 		if reverse {
 			if vv {
 				return false, nil
-- 
2.43.0


From d4de2595552943bd4ab247cbaedb97459b5d648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 03/64] fix: keep every condition when restricting a query to
 clusters or namespaces

SearchSelector only recognised a selector part written without leading
white space and looked at the first one alone, so Clusters, Namespaces and
the proxy's default cluster dropped the other selector parts, kept an old
restriction, or missed the selected clusters. A restriction written as an
equality was not replaced, and a part beginning with a semicolon was
written so that it merged with the part before it.
---
 page/page.go | 57 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/page/page.go b/page/page.go
index d519942..5f5f16e 100644
--- a/page/page.go
+++ b/page/page.go
@@ -146,26 +146,35 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	return reverse, nil
 }
 
+// SearchSelector returns the conjunction of all selector parts of the search.
 func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
 	s := v1.LabelSelector{}
-	parts := p.SearchParts()
-	search := ""
-	for _, part := range parts {
-		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			search = part
-			break
+	for _, part := range p.SearchParts() {
+		part = strings.TrimSpace(part)
+		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) || len(constants.AdvancedSearchPrefix) == len(part) {
+			continue
 		}
+		ps, err := kube.ParseToLabelSelector(part[len(constants.AdvancedSearchPrefix):])
+		if err != nil {
+			return nil, err
+		}
+		for k, v := range ps.MatchLabels {
+			if old, ok := s.MatchLabels[k]; ok && old != v {
+				ps.MatchExpressions = append(ps.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      k,
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{v},
+				})
+				continue
+			}
+			if s.MatchLabels == nil {
+				s.MatchLabels = map[string]string{}
+			}
+			s.MatchLabels[k] = v
+		}
+		s.MatchExpressions = append(s.MatchExpressions, ps.MatchExpressions...)
 	}
-	if search == "" {
-		return &s, nil
-	}
-	if !strings.HasPrefix(search, constants.AdvancedSearchPrefix) {
-		return nil, fmt.Errorf("")
-	}
-	if len(constants.AdvancedSearchPrefix) == len(search) {
-		return &s, nil
-	}
-	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
+	return &s, nil
 }
 
 func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
@@ -176,7 +185,7 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		if !strings.HasPrefix(strings.TrimSpace(part), constants.AdvancedSearchPrefix) {
 			pps = append(pps, part)
 		}
 	}
@@ -189,8 +198,13 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 		return strings.ReplaceAll(s, ";", ";;")
 	}
 	pps := []string{}
-	for _, part := range parts {
-		pps = append(pps, doubleSep(part))
+	for i, part := range parts {
+		part = doubleSep(part)
+		if i > 0 && strings.HasPrefix(part, ";") {
+			// keep the separator apart from the doubled one the part begins with
+			part = " " + part
+		}
+		pps = append(pps, part)
 	}
 	p.Search = strings.Join(pps, ";")
 }
@@ -213,6 +227,7 @@ func (p *Paginate) Namespaces(nss []string) error {
 			mes = append(mes, r)
 		}
 	}
+	delete(s.MatchLabels, nsKey)
 	s.MatchExpressions = mes
 	return p.SetSearchSelector(s)
 }
@@ -240,6 +255,7 @@ func (p *Paginate) Clusters(css []string) error {
 			mes = append(mes, r)
 		}
 	}
+	delete(s.MatchLabels, nsKey)
 	s.MatchExpressions = mes
 	return p.SetSearchSelector(s)
 }
@@ -253,6 +269,9 @@ func (p *Paginate) GetClusters() []string {
 		return nil
 	}
 	nsKey := "cluster"
+	if c, ok := s.MatchLabels[nsKey]; ok {
+		return []string{c}
+	}
 	for _, r := range s.MatchExpressions {
 		if r.Key == nsKey {
 			return r.Values
-- 
2.43.0


From 83c76960273f8cdc1bc61824b1f3e3fe51441b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 04/64] fix: keep conflicting equality requirements of a label
 selector

"a=1,a=2" selects nothing, but became "a=2" when put in MatchLabels.
---
 kube/label.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..0e28c96 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -65,7 +65,16 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
-			labelSelector.MatchLabels[req.Key()] = val
+			if old, ok := labelSelector.MatchLabels[req.Key()]; !ok || old == val {
+				labelSelector.MatchLabels[req.Key()] = val
+				continue
+			}
+			// a map holds one value per key: keep a conflicting requirement as an expression
+			labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+				Key:      req.Key(),
+				Operator: v1.LabelSelectorOpIn,
+				Values:   []string{val},
+			})
 			continue
 		case selection.In:
 			op = v1.LabelSelectorOpIn
-- 
2.43.0


From eb4ecb07bbdfdf9395655715ff17eca83be62a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 05/64] fix: sort lists in one well-defined order and reject
 malformed sorts

---
 store/memory/memory.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..acf23a3 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -176,9 +176,6 @@ type innerSort struct {
 }
 
 func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
-	if s == "" {
-		s = "cluster, namespace, name"
-	}
 	if len(objs) == 0 {
 		return objs, nil
 	}
@@ -197,7 +194,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		if strings.Contains(s, " ") {
 			parts := strings.Split(s, " ")
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
@@ -233,7 +230,20 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		}
 		sorts = append(sorts, st)
 	}
-	var sortErr error = nil
+	for _, s := range sorts {
+		if s.typ != constants.KeyTypeInt {
+			continue
+		}
+		for _, o := range objs {
+			if _, err := strconv.ParseFloat(o.Index[s.key], 64); err != nil {
+				return objs, fmt.Errorf("value of `%s` can not convert to number", s.key)
+			}
+		}
+	}
+	// objects which are equal by the requested keys always come in the same order.
+	for _, k := range []string{"cluster", "namespace", "name"} {
+		sorts = append(sorts, innerSort{key: k, typ: constants.KeyTypeStr})
+	}
 	sort.Slice(objs, func(i, j int) bool {
 		for _, s := range sorts {
 			r := false
@@ -241,17 +251,8 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			vis := objs[i].Index[s.key]
 			vjs := objs[j].Index[s.key]
 			if s.typ == constants.KeyTypeInt {
-				keyErr := fmt.Errorf("value of `%s` can not convert to number", s.key)
-				vi, err := strconv.ParseFloat(vis, 64)
-				if err != nil {
-					sortErr = keyErr
-					break
-				}
-				vj, err := strconv.ParseFloat(vjs, 64)
-				if err != nil {
-					sortErr = keyErr
-					break
-				}
+				vi, _ := strconv.ParseFloat(vis, 64)
+				vj, _ := strconv.ParseFloat(vjs, 64)
 				r = vi < vj
 				equals = vi == vj
 			} else {
@@ -266,9 +267,9 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		return false
 	})
-	return objs, sortErr
+	return objs, nil
 }
 
 func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namespace, name string) interface{} {
-- 
2.43.0


From 34c99d652c0bfd7580deaebc2c5dc015158fe527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 06/64] fix: write the complete index into the index annotation

---
 store/memory/memory.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index acf23a3..03901e3 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -415,15 +415,15 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 			anno[constants.DSMClusterAnno] = cluster
 			oo.SetAnnotations(anno)
 		}
+		namespace = oo.GetNamespace()
+		name = oo.GetName()
+		s.Index["namespace"] = namespace
+		s.Index["name"] = name
 		anno := oo.GetAnnotations()
 		index, _ := json.Marshal(s.Index)
 		anno[constants.IndexAnno] = string(index) // todo constants
 		oo.SetAnnotations(anno)
 		s.Obj = oo
-		namespace = oo.GetNamespace()
-		name = oo.GetName()
-		s.Index["namespace"] = namespace
-		s.Index["name"] = name
 	}
 	log.Debugf("memory store: gvr: %v, resources %s/%s, index: %v", gvr, namespace, name, s.Index)
 	return namespace, name, s
-- 
2.43.0


From 50653e9d6b7bf8bff9f5e7de1895af1191e21d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 07/64] fix: do not accept NaN as a number to sort by

---
 store/memory/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 03901e3..c4c3a43 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -235,7 +235,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			continue
 		}
 		for _, o := range objs {
-			if _, err := strconv.ParseFloat(o.Index[s.key], 64); err != nil {
+			if v, err := strconv.ParseFloat(o.Index[s.key], 64); err != nil || v != v {
 				return objs, fmt.Errorf("value of `%s` can not convert to number", s.key)
 			}
 		}
-- 
2.43.0


From f1507eb4fb2736e19db627c00ad7e67e016b3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 08/64] fix: answer every page and page size without slicing
 outside the list

---
 api/proxy.go           | 55 ++++++++++++++++--------------------------
 page/page.go           | 28 ++++++++++++++++++++-
 store/memory/memory.go | 17 +++----------
 3 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..8304adc 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -264,24 +264,10 @@ func Proxy(r *ReqContext) interface{} {
 		}
 
 		// manually slice items
-		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
+		total = int64(len(items))
+		if start, end, err := paginate.Range(total); err == nil {
+			items = items[start:end]
 		}
-		items = items[start:end]
-		total = l
 	} else {
 		res := r.Store.Query(gvr, store.Query{
 			Namespace: namespace,
@@ -304,24 +290,25 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
-	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
-		// all item returned
-		remainCount = 0
-	} else {
-		// page starts with 1,
-		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
-			return errorProxy(r.Writer, v1.Status{
-				Status:  v1.StatusFailure,
-				Message: "out of page",
-				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", remainCount)),
-				Code:    400,
-			})
-		} else if remainCount < 0 {
-			remainCount = 0
-		}
+	start, end, err := paginate.Range(total)
+	if err != nil {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  v1.StatusReason(err.Error()),
+			Code:    400,
+		})
+	}
+	// page starts with 1,
+	if paginate.PageSize > 0 && paginate.Page > 1 && start >= total {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "out of page",
+			Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d of %d", paginate.Page, total)),
+			Code:    400,
+		})
 	}
+	remainCount := total - end
 	if strings.Contains(r.Request.Header.Get("accept"), "application/json;as=Table") {
 		return serverPrint(items)
 	}
diff --git a/page/page.go b/page/page.go
index 5f5f16e..b3935aa 100644
--- a/page/page.go
+++ b/page/page.go
@@ -353,6 +353,29 @@ func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, er
 	return options, nil
 }
 
+// Range returns the half-open range of the page in a list of total items: everything if no page or
+// no page size is given, and an empty range at the end for a page past the end.
+func (p *Paginate) Range(total int64) (start, end int64, err error) {
+	if p.Page < 0 || p.PageSize < 0 {
+		return 0, 0, fmt.Errorf("negative page or page size: %d, %d", p.Page, p.PageSize)
+	}
+	if p.Page == 0 || p.PageSize == 0 {
+		return 0, total, nil
+	}
+	if p.Page-1 > total/p.PageSize {
+		return total, total, nil
+	}
+	start = (p.Page - 1) * p.PageSize
+	if start > total {
+		start = total
+	}
+	end = total
+	if p.PageSize < total-start {
+		end = start + p.PageSize
+	}
+	return start, end, nil
+}
+
 func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 	remain := l.GetRemainingItemCount()
 	val := reflect.ValueOf(l).Elem()
@@ -371,7 +394,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 0 {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index c4c3a43..2c5742a 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -317,19 +317,10 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 	}
 	res.Total = l
 	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
+	start, end, err = query.Range(l)
+	if err != nil {
+		res.Error = err
+		return res
 	}
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
-- 
2.43.0


From b5e3bd02c2c5ce6df64df632544ef2cbdc4a4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 09/64] fix: list no objects as an empty array instead of null

---
 api/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 8304adc..4d7dd52 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -281,7 +281,7 @@ func Proxy(r *ReqContext) interface{} {
 				Code:    400,
 			})
 		}
-		items = res.Items
+		items = append(items, res.Items...)
 		total = res.Total
 	}
 	apiVersion := ""
-- 
2.43.0


From 506e801624917ef14df0e9d27bced17b0068a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 10/64] fix: derive the item kind by removing the List suffix,
 not its letters

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From bafa58915cf8e1d96d079a538b3d0d0ef45c95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 11/64] fix: register watched kinds in the watcher's own scheme

---
 watcher/watcher.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..5157d81 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -11,6 +11,7 @@ import (
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -26,15 +27,23 @@ type watcher struct {
 	store          store.Store
 	stop           chan struct{}
 	lock           sync.Mutex
+	scheme         *runtime.Scheme
+	codecs         serializer.CodecFactory
 	Watcher
 }
 
 func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVersionResource, store store.Store) Watcher {
+	// a scheme of its own: registering kinds in the global one races with its users.
+	s := runtime.NewScheme()
+	v1.AddToGroupVersion(s, schema.GroupVersion{Version: "v1"})
+	_ = scheme.AddToScheme(s)
 	return &watcher{
 		clusterConfigs: clusterConfigs,
 		resources:      resources,
 		store:          store,
 		stop:           make(chan struct{}),
+		scheme:         s,
+		codecs:         serializer.NewCodecFactory(s),
 	}
 }
 
@@ -111,29 +120,23 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
-	gvk := schema.GroupVersionKind{
+// itemKind returns the kind of the objects of a resource.
+func itemKind(r store.GroupVersionResource) schema.GroupVersionKind {
+	return schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
 		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
-	gv := schema.GroupVersion{
-		Group:   r.Group,
-		Version: r.Version,
-	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
-	}
-	w.lock.Unlock()
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = w.codecs.WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -193,6 +196,15 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	// register all kinds before anything is decoded with them.
+	w.lock.Lock()
+	for _, r := range w.resources {
+		gvk := itemKind(r)
+		if !w.scheme.Recognizes(gvk) {
+			w.scheme.AddKnownTypeWithName(gvk, &ObjType{})
+		}
+	}
+	w.lock.Unlock()
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
 			go w.watchResources(r, c)
-- 
2.43.0


From cfd5520093473d4def79e7f24688b1a950a6cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 12/64] fix: keep kind and apiVersion of cached built-in
 objects

---
 watcher/watcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5157d81..8760793 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -130,6 +130,7 @@ func itemKind(r store.GroupVersionResource) schema.GroupVersionKind {
 }
 
 func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
+	gvk := itemKind(r)
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
@@ -168,6 +169,10 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						first = false
 					}
 					if open {
+						if _, ok := rr.Object.(v1.Object); ok {
+							// decoding removes kind and apiVersion from built-in types.
+							rr.Object.GetObjectKind().SetGroupVersionKind(gvk)
+						}
 						switch rr.Type {
 						case watch.Added:
 							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
-- 
2.43.0


From fc09358e6fdad55108c25baf02e8b6157da9b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 13/64] fix: let Stop end watches which are connecting or
 waiting, and wait for them

---
 watcher/watcher.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 8760793..a4fce94 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -25,7 +25,9 @@ type watcher struct {
 	clusterConfigs map[string]rest.Config
 	resources      []store.GroupVersionResource
 	store          store.Store
-	stop           chan struct{}
+	ctx            context.Context
+	cancel         context.CancelFunc
+	running        sync.WaitGroup
 	lock           sync.Mutex
 	scheme         *runtime.Scheme
 	codecs         serializer.CodecFactory
@@ -37,21 +39,35 @@ func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVe
 	s := runtime.NewScheme()
 	v1.AddToGroupVersion(s, schema.GroupVersion{Version: "v1"})
 	_ = scheme.AddToScheme(s)
+	ctx, cancel := context.WithCancel(context.Background())
 	return &watcher{
 		clusterConfigs: clusterConfigs,
 		resources:      resources,
 		store:          store,
-		stop:           make(chan struct{}),
+		ctx:            ctx,
+		cancel:         cancel,
 		scheme:         s,
 		codecs:         serializer.NewCodecFactory(s),
 	}
 }
 
+// Stop ends all watches and returns when the last one has gone.
 func (w *watcher) Stop() error {
-	close(w.stop)
+	w.cancel()
+	w.running.Wait()
 	return nil
 }
 
+// sleep waits for a while, or until the watcher is stopped.
+func (w *watcher) sleep(d time.Duration) {
+	t := time.NewTimer(d)
+	defer t.Stop()
+	select {
+	case <-t.C:
+	case <-w.ctx.Done():
+	}
+}
+
 type ObjType struct {
 	v1.TypeMeta   `json:",inline"`
 	v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
@@ -141,11 +157,11 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
-		case <-w.stop:
+		case <-w.ctx.Done():
 			return
 		default:
 		}
-		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
+		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
 			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
@@ -156,7 +172,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
-			time.Sleep(time.Second * 15)
+			w.sleep(time.Second * 15)
 		} else {
 		resultChan:
 			for {
@@ -186,10 +202,10 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 					} else {
 						log.Warnf("cluster(%s): watch stream(%v) closed", cluster, r)
 						ww.Stop()
-						time.Sleep(time.Second * 3)
+						w.sleep(time.Second * 3)
 						break resultChan
 					}
-				case <-w.stop:
+				case <-w.ctx.Done():
 					ww.Stop()
 					cancel()
 					return
@@ -212,7 +228,11 @@ func (w *watcher) Start() error {
 	w.lock.Unlock()
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
-			go w.watchResources(r, c)
+			w.running.Add(1)
+			go func(r store.GroupVersionResource, c string) {
+				defer w.running.Done()
+				w.watchResources(r, c)
+			}(r, c)
 		}
 	}
 	return nil
-- 
2.43.0


From fba560c0fb8c457a6acd11a7361c77355b1d83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 14/64] fix: replace cached objects when the cluster sends or
 denies objects, not on any event

---
 watcher/watcher.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index a4fce94..592e0f6 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -136,6 +136,24 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
+// isEmpty reports whether the API server confirms that there are no objects.
+func isEmpty(ctx context.Context, rt rest.Interface, listURL string) bool {
+	ctx, cancel := context.WithTimeout(ctx, time.Second*10)
+	defer cancel()
+	bs, err := rt.Get().RequestURI(listURL).MaxRetries(0).DoRaw(ctx)
+	if err != nil {
+		return false
+	}
+	list := struct {
+		Kind  string            `json:"kind"`
+		Items []json.RawMessage `json:"items"`
+	}{}
+	if err := json.Unmarshal(bs, &list); err != nil {
+		return false
+	}
+	return strings.HasSuffix(list.Kind, "List") && len(list.Items) == 0
+}
+
 // itemKind returns the kind of the objects of a resource.
 func itemKind(r store.GroupVersionResource) schema.GroupVersionKind {
 	return schema.GroupVersionKind{
@@ -164,28 +182,34 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
-			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
+			url = fmt.Sprintf("/api/%s/%s", r.Version, r.Resource)
 		} else {
-			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
+			url = fmt.Sprintf("/apis/%s/%s/%s", r.Group, r.Version, r.Resource)
 		}
+		listURL := url + "?limit=1"
+		url += "?watch=true"
 		first := true
 		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			w.sleep(time.Second * 15)
 		} else {
+			if isEmpty(ctx, rt, listURL) {
+				// no event will tell that the last objects have gone.
+				_ = w.store.Clean(r, cluster)
+			}
 		resultChan:
 			for {
 				select {
 				case rr, open := <-ww.ResultChan():
-					if first {
-						// only clean resource at the first time
-						// to avoid the resources gone after server break.
-						_ = w.store.Clean(r, cluster)
-						first = false
-					}
 					if open {
-						if _, ok := rr.Object.(v1.Object); ok {
+						if _, ok := rr.Object.(v1.Object); ok && rr.Type != watch.Bookmark {
+							if first {
+								// only clean resource at the first object
+								// to avoid the resources gone after server break.
+								_ = w.store.Clean(r, cluster)
+								first = false
+							}
 							// decoding removes kind and apiVersion from built-in types.
 							rr.Object.GetObjectKind().SetGroupVersionKind(gvk)
 						}
-- 
2.43.0


From b76986b49d4fe88711ef788a3b898ce6de194a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 15/64] fix: do not crash on a cluster whose client cannot be
 created

---
 watcher/watcher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 592e0f6..fb22f05 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -172,7 +172,11 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		Version: r.Version,
 	}
 	config.NegotiatedSerializer = w.codecs.WithoutConversion()
-	rt, _ := rest.RESTClientFor(&config)
+	rt, err := rest.RESTClientFor(&config)
+	if err != nil {
+		log.Errorf("cluster(%s): create client for %v error: %v", cluster, r, err)
+		return
+	}
 	for {
 		select {
 		case <-w.ctx.Done():
-- 
2.43.0


From 83668fd51549314e2a7eaa67a8fb7f7bde3e4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 16/64] fix: keep integers intact in custom resources and index
 values

---
 store/memory/memory.go | 4 ++--
 utils/utils.go         | 9 +++++++--
 watcher/watcher.go     | 4 +++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 2c5742a..25992c4 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -333,10 +333,10 @@ var funMap = map[string]interface{}{
 		if pre == nil {
 			return def
 		}
-		return fmt.Sprintf("%s", pre)
+		return fmt.Sprint(pre)
 	},
 	"quote": func(pre interface{}) string {
-		return fmt.Sprintf("%q", pre)
+		return fmt.Sprintf("%q", fmt.Sprint(pre))
 	},
 	"join": func(sep string, ins ...string) string {
 		return strings.Join(ins, sep)
diff --git a/utils/utils.go b/utils/utils.go
index 071c8e1..088aaee 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,10 +1,15 @@
 package utils
 
-import "encoding/json"
+import (
+	"encoding/json"
+
+	utiljson "k8s.io/apimachinery/pkg/util/json"
+)
 
 func Obj2JSONMap(obj interface{}) map[string]interface{} {
 	m := make(map[string]interface{})
 	bs, _ := json.Marshal(obj)
-	_ = json.Unmarshal(bs, &m)
+	// keeps integers as int64
+	_ = utiljson.Unmarshal(bs, &m)
 	return m
 }
diff --git a/watcher/watcher.go b/watcher/watcher.go
index fb22f05..ffa75af 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -12,6 +12,7 @@ import (
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apimachinery/pkg/runtime/serializer"
+	utiljson "k8s.io/apimachinery/pkg/util/json"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -76,7 +77,8 @@ type ObjType struct {
 
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keeps integers as int64
+	_ = utiljson.Unmarshal(bytes, &m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 143d51f2cc884da6d879f2239fcf905da491e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 17/64] fix: evaluate each index expression with a parser of
 its own

---
 store/memory/memory.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 25992c4..a4b2bf3 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -349,9 +349,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
@@ -360,14 +357,16 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		var err error
 		if strings.Contains(v, "{{") {
 			// go template
-			exec, err = gotmpl.Parse(v)
+			exec, err = template.New("parser").Funcs(funMap).Parse(v)
 		} else if !strings.Contains(v, "{") {
 			// raw string
 			s.Index[k] = v
 			continue
 		} else {
 			// json path
-			_ = jp.Parse(v)
+			jp := jsonpath.New("parser")
+			jp.AllowMissingKeys(true)
+			err = jp.Parse(v)
 			exec = jp
 		}
 		if err != nil {
-- 
2.43.0


From 0c88d3f7137626939117d991e9115040565afe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 18/64] fix: quote numbers in index templates in decimal

---
 store/memory/memory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index a4b2bf3..6800bbe 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -336,7 +336,11 @@ var funMap = map[string]interface{}{
 		return fmt.Sprint(pre)
 	},
 	"quote": func(pre interface{}) string {
-		return fmt.Sprintf("%q", fmt.Sprint(pre))
+		switch pre.(type) {
+		case int64, float64:
+			pre = fmt.Sprint(pre)
+		}
+		return fmt.Sprintf("%q", pre)
 	},
 	"join": func(sep string, ins ...string) string {
 		return strings.Join(ins, sep)
-- 
2.43.0


From 90d4ec121e457ac04669d9b745c2ac73820ee81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 19/64] fix: stay in the default cluster when its name is no
 label value

---
 api/extend/deploy2service.go |  4 ++--
 api/proxy.go                 |  5 +----
 page/page.go                 | 12 ++++++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..da67366 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -35,7 +35,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		cluster = common.GetConfig().DefaultCluster
 	}
 	p := page.Paginate{Search: "name=" + dep}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -54,7 +54,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
diff --git a/api/proxy.go b/api/proxy.go
index 4d7dd52..b7fe166 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -220,10 +220,7 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
-		if err != nil {
-			log.Errorf("set cluster error: %v", err)
-		}
+		paginate.OnlyCluster(common.GetConfig().DefaultCluster)
 	}
 	log.Debugf("got paginate %v", paginate)
 
diff --git a/page/page.go b/page/page.go
index b3935aa..7f062c6 100644
--- a/page/page.go
+++ b/page/page.go
@@ -353,6 +353,18 @@ func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, er
 	return options, nil
 }
 
+// OnlyCluster restricts the query to one cluster, also if its name can not be a value of a label selector.
+func (p *Paginate) OnlyCluster(cluster string) {
+	if err := p.Clusters([]string{cluster}); err == nil {
+		return
+	}
+	part := `cluster="` + strings.ReplaceAll(cluster, ";", ";;") + `"`
+	if p.Search != "" {
+		part += "; " + p.Search
+	}
+	p.Search = part
+}
+
 // Range returns the half-open range of the page in a list of total items: everything if no page or
 // no page size is given, and an empty range at the end for a page past the end.
 func (p *Paginate) Range(total int64) (start, end int64, err error) {
-- 
2.43.0


From a7358e8a6c46972a6a8aeb2b1bca9525f3237ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 20/64] fix: encode queries with ?, ~ and non-ASCII text as
 valid selector values

---
 page/page.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/page/page.go b/page/page.go
index 7f062c6..e5fa25e 100644
--- a/page/page.go
+++ b/page/page.go
@@ -1,11 +1,13 @@
 package page
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -320,11 +322,28 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// labelSafe escapes the characters of a JSON text whose base64 encoding may contain
+// a + or a /, which the values of a label selector can not have.
+func labelSafe(bs []byte) []byte {
+	b := bytes.Buffer{}
+	for _, r := range string(bs) {
+		if r < '~' && r != '?' {
+			b.WriteRune(r)
+			continue
+		}
+		for _, u := range utf16.Encode([]rune{r}) {
+			fmt.Fprintf(&b, `\u%04x`, u)
+		}
+	}
+	return b.Bytes()
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
+	bs = labelSafe(bs)
 	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
-- 
2.43.0


From 362e3172cace674af556522872bffe0f9a72c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 21/64] fix: replace the query list options already carry, also
 by an empty one

---
 page/page.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/page/page.go b/page/page.go
index e5fa25e..d02c5d1 100644
--- a/page/page.go
+++ b/page/page.go
@@ -340,7 +340,7 @@ func labelSafe(bs []byte) []byte {
 
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
-	if string(bs) == "{}" {
+	if string(bs) == "{}" && !strings.Contains(options.LabelSelector, constants.PaginateKey) {
 		return options, nil
 	}
 	bs = labelSafe(bs)
@@ -353,17 +353,25 @@ func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, er
 	if err != nil {
 		return options, err
 	}
-	mes := []v1.LabelSelectorRequirement{{
-		Key:      constants.PaginateKey,
-		Operator: v1.LabelSelectorOpNotIn,
-		Values:   kube.SplittingValue(s),
-	}}
+	mes := []v1.LabelSelectorRequirement{}
+	if string(bs) != "{}" {
+		mes = append(mes, v1.LabelSelectorRequirement{
+			Key:      constants.PaginateKey,
+			Operator: v1.LabelSelectorOpNotIn,
+			Values:   kube.SplittingValue(s),
+		})
+	}
+	delete(ls.MatchLabels, constants.PaginateKey)
 	for _, m := range ls.MatchExpressions {
 		if m.Key != constants.PaginateKey {
 			mes = append(mes, m)
 		}
 	}
 	ls.MatchExpressions = mes
+	if len(ls.MatchLabels) == 0 && len(ls.MatchExpressions) == 0 {
+		options.LabelSelector = ""
+		return options, nil
+	}
 	sstr := v1.FormatLabelSelector(ls)
 	if sstr == "<error>" {
 		return options, fmt.Errorf("parse selector %v error", ls)
-- 
2.43.0


From df22aa39e4124e1561c37222cc3fa30926614a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 22/64] fix: merge long queries in the order of their parts

---
 kube/label.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index 0e28c96..ef15014 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -31,7 +31,14 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
+	// by the position in front of the dot, which has four digits or more
+	sort.Slice(values, func(i, j int) bool {
+		pi, pj := strings.Index(values[i], "."), strings.Index(values[j], ".")
+		if pi != pj {
+			return pi < pj
+		}
+		return values[i] < values[j]
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
-- 
2.43.0


From cac6dbf92224084cd04d000c47ea4a9c4794aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 23/64] fix: do not forward a selector which only carries the
 query

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index b7fe166..fd46219 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -171,6 +171,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		if len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0 {
 			// if labelSelectorStr is empty, v1.FormatLabelSelector will return "<none>", so we should not use it.
 			query.Set("labelSelector", v1.FormatLabelSelector(labels))
+		} else if paginateStr != "" {
+			query.Del("labelSelector")
 		}
 	}
 	r.URL.RawQuery = query.Encode()
-- 
2.43.0


From e940bebcfc06e1be928482ecd86546cb9643237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 24/64] fix: report clusters ckubecli can not select

---
 cmd/ckubecli/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ckubecli/main.go b/cmd/ckubecli/main.go
index 721b787..f8ef991 100644
--- a/cmd/ckubecli/main.go
+++ b/cmd/ckubecli/main.go
@@ -31,7 +31,10 @@ func main() {
 	}
 	if clusters != "" {
 		ccs := strings.Split(clusters, ",")
-		_ = p.Clusters(ccs)
+		if err := p.Clusters(ccs); err != nil {
+			fmt.Fprintf(os.Stderr, "clusters error: %v", err)
+			os.Exit(1)
+		}
 	}
 	o, err := page.QueryListOptions(v1.ListOptions{}, p)
 	if err != nil {
-- 
2.43.0


From f4438ff38dbc594cf4f91ab43f415799523ecca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 25/64] fix: forward the delete options of requests without a
 cluster marker

---
 api/proxy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/proxy.go b/api/proxy.go
index fd46219..44bf684 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,6 +119,7 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			r.Body = wrapReader(bytes.NewReader(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From 3753cbeb232e16258c35017ebb75ae4638dcc315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 26/64] fix: do not change the timeout of the cluster client
 other requests use

---
 api/proxy.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 44bf684..9afd241 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -449,8 +449,14 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 }
 
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
-	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
+	shared := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+	// the timeout is this request's own, and the client is used by others.
+	c, client := *shared, http.Client{}
+	if shared.Client != nil {
+		client = *shared.Client
+	}
+	client.Timeout = timeout
+	c.Client = &client
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
-- 
2.43.0


From 30753efe7d6cd2fb0081990b247fa6bc669ecfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 27/64] fix: proxy requests of any method

---
 api/proxy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 9afd241..6d393d7 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -470,8 +470,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 068ff4d2d59743ffa04b21e73392fa7a67866b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 28/64] fix: pass on status code and body of the cluster's
 answer

---
 api/proxy.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 6d393d7..f67f397 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -448,6 +448,11 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
+// errReader fails with the error of the request body it stands for.
+type errReader struct{ err error }
+
+func (e errReader) Read([]byte) (int, error) { return 0, e.err }
+
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
 	shared := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	// the timeout is this request's own, and the client is used by others.
@@ -477,7 +482,12 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	//		req = req.SetHeader(k, v[0])
 	//	}
 	// }
-	req = req.Body(r.Request.Body)
+	if body, err := io.ReadAll(r.Request.Body); err == nil {
+		// not the reader itself: a retry sends the body once more.
+		req = req.Body(body)
+	} else {
+		req = req.Body(io.MultiReader(bytes.NewReader(body), errReader{err}))
+	}
 	return req
 }
 
@@ -501,13 +511,16 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
-	if err != nil {
+	var code int
+	result := getRequest(r, cluster, timeout).RequestURI(u).Do(ctx).StatusCode(&code)
+	res, err := result.Raw()
+	if err != nil && (code == 0 || len(res) == 0) {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
 		}
 		return err
 	}
 	r.Writer.Header().Set("Content-Type", "application/json")
+	r.Writer.WriteHeader(code)
 	return res
 }
-- 
2.43.0


From b4049b5d4ac5b95c55af8e66b8874da32f2ac74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 29/64] fix: release the upstream watch when the client goes
 away

---
 api/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index f67f397..0a640c9 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -415,7 +415,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	u := r.Request.URL.String()
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
 	if err != nil {
-- 
2.43.0


From 9cd19c8ec99e50cbc5d0b0f7136203f2937e11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 30/64] fix: relay the last byte of a watch

---
 api/proxy.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 0a640c9..4da9ac3 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -430,12 +430,15 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		if n == 0 && err == nil {
+			continue
+		}
+		buf.Write(t[:n])
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
 		if t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
-- 
2.43.0


From e2856f0b643d947d951b478f6641499c418b6c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 31/64] fix: reload the configuration without racing with its
 readers

---
 common/config.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/config.go b/common/config.go
index a06eefc..18f401c 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,21 +21,28 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+var (
+	cfg     *Config
+	cfgLock sync.RWMutex
+)
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
+	cfgLock.Lock()
+	defer cfgLock.Unlock()
 	cfg = c
 }
 
 func GetConfig() Config {
+	cfgLock.RLock()
+	defer cfgLock.RUnlock()
 	return *cfg
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
+	for _, p := range GetConfig().Proxies {
 		if p.Group == g && p.Version == v && p.Resource == r {
 			return p.ListKind
 		}
-- 
2.43.0


From 386c83d301645f377f2b4b128e60bd4adc2d5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 32/64] fix: switch store and cluster clients together

---
 server/server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..dcab5d3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -33,6 +34,7 @@ type muxServer struct {
 	ListenAddr     string
 	router         *mux.Router
 	server         *http.Server
+	lock           sync.RWMutex // of store and clusterClients, which belong together
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
 }
@@ -117,10 +119,18 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
 
+func (m *muxServer) storeAndClients() (store.Store, map[string]kubernetes.Interface) {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	return m.store, m.clusterClients
+}
+
 func jsonResp(writer http.ResponseWriter, status int, v interface{}) {
 	b, _ := json.Marshal(v)
 	writer.Header().Set("Content-Type", "application/json")
@@ -162,9 +172,10 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				s, clis := m.storeAndClients()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clis,
+					Store:          s,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From 5c14d9d3f1de51f41722a564f0498f298dce8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 33/64] fix: report the number of cached resources after
 cleaning and concurrent changes

---
 store/memory/memory.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 6800bbe..8cdbf7c 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -110,6 +110,8 @@ type memoryStore struct {
 			],
 		],
 	]
+	// metricLock makes counting resources and reporting their number one step
+	metricLock sync.Mutex
 	store.Store
 }
 
@@ -136,18 +138,30 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
 		return fmt.Errorf("cluster %s not exists", cluster)
 	}
-	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
-		c.Clean()
+	namespaces := []namespaceName{}
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, _ *syncResourceStore[string, store.Object]) {
+		namespaces = append(namespaces, ns)
+	})
+	for _, ns := range namespaces {
+		m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(ns).Clean()
+		m.countResources(gvr, cluster, string(ns))
 	}
 	return nil
 }
 
+// countResources reports how many resources there are in a namespace.
+func (m *memoryStore) countResources(gvr store.GroupVersionResource, cluster, namespace string) {
+	m.metricLock.Lock()
+	defer m.metricLock.Unlock()
+	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, namespace).
+		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(namespace)).Len()))
+}
+
 func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
 	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
 	m.initResourceNamespace(gvr, cluster, ns)
 	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
-	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
-		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
+	m.countResources(gvr, cluster, ns)
 	return nil
 }
 
@@ -155,8 +169,7 @@ func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster
 	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
 	m.initResourceNamespace(gvr, cluster, ns)
 	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
-	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
-		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
+	m.countResources(gvr, cluster, ns)
 	return nil
 }
 
@@ -164,8 +177,7 @@ func (m *memoryStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster
 	ns, name, _ := m.buildResourceWithIndex(gvr, cluster, obj)
 	m.initResourceNamespace(gvr, cluster, ns)
 	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete(name)
-	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
-		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
+	m.countResources(gvr, cluster, ns)
 	return nil
 }
 
-- 
2.43.0


From 132fc7ca718fe8efb0cc9c0255822280a9b17fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 34/64] fix: reset the resource metrics between the old and the
 new watcher

---
 cmd/cacheproxy/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..03b7493 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -157,7 +157,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
 	return clusterClients, w, m, nil
 }
 
@@ -180,6 +179,7 @@ func main() {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig == "" {
@@ -211,9 +211,11 @@ func main() {
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
+				// the old watcher must not report anything after the reset.
 				_ = w.Stop()
+				prommonitor.Resources.Reset()
 				w = rw
+				_ = w.Start()
 				ser.ResetStore(rs, clis) // reset store
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
 				log.Infof("auto reloaded config successfully")
-- 
2.43.0


From 2035b61f2146e6a1a77f495873df71afa963ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 35/64] fix: find the services of all pods of exactly the
 requested deployment

---
 api/extend/deploy2service.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index da67366..46b3370 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -34,7 +34,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
+	p := page.Paginate{}
 	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
@@ -43,13 +43,11 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if res.Error != nil {
 		return res.Error
 	}
-	var labels map[string]string
+	podLabels := []map[string]string{}
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
-			depName := getDeploymentName(pod)
-			if depName != "" {
-				labels = pod.GetLabels()
-				break
+			if getDeploymentName(pod) == dep {
+				podLabels = append(podLabels, pod.GetLabels())
 			}
 		}
 	}
@@ -70,8 +68,15 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
-			services = append(services, svc)
+		// a service without selector selects no pods.
+		if len(svc.Spec.Selector) == 0 {
+			continue
+		}
+		for _, labels := range podLabels {
+			if utils.IsSubsetOf(svc.Spec.Selector, labels) {
+				services = append(services, svc)
+				break
+			}
 		}
 	}
 	return services
-- 
2.43.0


From f15bcbacd8478543ae3b658407d61047e679d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 36/64] fix: run exactly the kubectl command the user meant

---
 cmd/ckube-plugin/main.go | 205 ++++++++++++++++++++++++++++-----------
 1 file changed, 147 insertions(+), 58 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..00d4143 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -1,13 +1,15 @@
 package main
 
 import (
+	"errors"
+	"fmt"
 	"os"
 	"os/exec"
+	"regexp"
 	"strings"
 
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 
-	"github.com/DaoCloud/ckube/log"
 	"github.com/DaoCloud/ckube/page"
 )
 
@@ -18,75 +20,162 @@ const (
 	notSupport
 )
 
-func main() {
-	clusters := ""
-	args := []string{}
-	typ := notSupport
-	selectorPos := 0
-	for i := 1; i < len(os.Args); i++ {
-		a := os.Args[i]
-		switch a {
-		case "get":
-			typ = get
-		case "create":
-			typ = create
-			// case "delete":
-			//	typ = del
+var (
+	// the selector option, alone or behind options without value: -l, -lapp=x, -l=app=x, -Al
+	selectorFlag = regexp.MustCompile(`^-[ARwh]*l(.*)$`)
+	// options whose value is the next argument
+	valueFlag = regexp.MustCompile(`^(-[ARwh]*[nsofkLv]|--(namespace|server|context|cluster|user|kubeconfig|as|as-group|token|` +
+		`request-timeout|output|filename|kustomize|field-selector|label-columns|sort-by|template|chunk-size|raw|v|cache-dir|` +
+		`certificate-authority|client-certificate|client-key|tls-server-name|username|password))$`)
+)
+
+// command is a kubectl command line taken apart.
+type command struct {
+	typ          int
+	clusters     string
+	fieldManager string
+	args         []string // without the cluster option
+	rest         []string // from -- on
+	selectorPos  int      // of the argument the selector is in, -1 if there is none
+	selectorPre  string   // what is in front of the selector in this argument
+}
+
+func parse(in []string) (*command, error) {
+	c := &command{typ: notSupport, selectorPos: -1}
+	next := func(i int) error {
+		if i+1 >= len(in) {
+			return errors.New("value of option " + in[i] + " is missing")
 		}
-		if a == "--clusters" {
-			if i+1 < len(os.Args) {
-				clusters = os.Args[i+1]
+		return nil
+	}
+	for i := 0; i < len(in); i++ {
+		a := in[i]
+		switch {
+		case a == "--":
+			c.rest = in[i:]
+			return c, nil
+		case a == "--clusters":
+			if err := next(i); err != nil {
+				return nil, err
+			}
+			i++
+			c.clusters = in[i]
+			continue
+		case strings.HasPrefix(a, "--clusters="):
+			c.clusters = strings.TrimPrefix(a, "--clusters=")
+			continue
+		case a == "--field-manager":
+			if err := next(i); err != nil {
+				return nil, err
+			}
+			c.args = append(c.args, a)
+			i++
+			a = in[i]
+			c.fieldManager = a
+		case strings.HasPrefix(a, "--field-manager="):
+			c.fieldManager = strings.TrimPrefix(a, "--field-manager=")
+		case strings.HasPrefix(a, "--selector="):
+			c.selectorPos, c.selectorPre = len(c.args), "--selector="
+		case a == "--selector", !strings.HasPrefix(a, "--") && selectorFlag.MatchString(a):
+			if v := selectorFlag.FindStringSubmatch(a); a != "--selector" && v[1] != "" {
+				v[1] = strings.TrimPrefix(v[1], "=")
+				c.selectorPos, c.selectorPre = len(c.args), strings.TrimSuffix(a, v[1])
+				break
+			}
+			if err := next(i); err != nil {
+				return nil, err
+			}
+			c.args = append(c.args, a)
+			i++
+			a = in[i]
+			c.selectorPos, c.selectorPre = len(c.args), ""
+		case valueFlag.MatchString(a):
+			if i+1 < len(in) {
+				c.args = append(c.args, a)
 				i++
-				continue
+				a = in[i]
 			}
+		case c.typ != notSupport:
+		case a == "get":
+			c.typ = get
+		case a == "create":
+			c.typ = create
+			// case "delete":
+			//	typ = del
+		}
+		c.args = append(c.args, a)
+	}
+	return c, nil
+}
+
+// complain writes to the standard error: the standard output is kubectl's.
+func complain(format string, a ...interface{}) {
+	fmt.Fprintf(os.Stderr, format+"\n", a...)
+}
+
+// addClusters makes the command address the clusters.
+func (c *command) addClusters() error {
+	cs := strings.Split(c.clusters, ",")
+	switch c.typ {
+	case get:
+		p := page.Paginate{}
+		if err := p.Clusters(cs); err != nil {
+			return err
+		}
+		selector := ""
+		if c.selectorPos >= 0 {
+			selector = strings.TrimPrefix(c.args[c.selectorPos], c.selectorPre)
+		}
+		o, err := page.QueryListOptions(metav1.ListOptions{
+			LabelSelector: selector,
+		}, p)
+		if err != nil {
+			return err
+		}
+		if c.selectorPos >= 0 {
+			c.args[c.selectorPos] = c.selectorPre + o.LabelSelector
 		} else {
-			args = append(args, a)
+			c.args = append(c.args, "-l", o.LabelSelector)
 		}
-		if a == "-l" || a == "--selector" {
-			if i+1 < len(os.Args) {
-				selectorPos = i + 1
-			}
+	case create, update:
+		if len(cs) > 1 {
+			return errors.New("create resource can only specified one cluster: " + c.clusters)
+		}
+		o, err := page.QueryCreateOptions(metav1.CreateOptions{FieldManager: c.fieldManager}, cs[0])
+		if err != nil {
+			return err
 		}
+		c.args = append(c.args, "--field-manager", o.FieldManager)
+	}
+	return nil
+}
+
+func main() {
+	cmd, err := parse(os.Args[1:])
+	if err != nil {
+		complain("ckube plugin: %v", err)
+		os.Exit(2)
 	}
-	if typ == notSupport {
-		log.Errorf("ckube plugin not support current subcommad")
+	if cmd.typ == notSupport {
+		complain("ckube plugin not support current subcommad")
 		os.Exit(1)
 	}
-	if clusters == "" {
-		log.Errorf("you are not specified the --clusters option, we will use the default cluster to process you request")
-	} else {
-		cs := strings.Split(clusters, ",")
-		switch typ {
-		case get:
-			p := page.Paginate{}
-			_ = p.Clusters(cs)
-			selector := ""
-			if selectorPos != 0 {
-				selector = args[selectorPos]
-			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
-				LabelSelector: selector,
-			}, p)
-			if selectorPos == 0 {
-				args = append(args, "-l", o.LabelSelector)
-			} else {
-				args[selectorPos] = o.LabelSelector
-			}
-		case create, update:
-			if len(cs) > 1 {
-				log.Errorf("create resource can only specified one cluster, error: %v", clusters)
-				os.Exit(2)
-			}
-			p := page.Paginate{}
-			_ = p.Clusters(cs)
-			o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cs[0])
-			args = append(args, "--field-manager", o.FieldManager)
-		}
+	if cmd.clusters == "" {
+		complain("you are not specified the --clusters option, we will use the default cluster to process you request")
+	} else if err := cmd.addClusters(); err != nil {
+		complain("ckube plugin: %v", err)
+		os.Exit(2)
 	}
-	c := exec.Command("kubectl", args...)
+	c := exec.Command("kubectl", append(cmd.args, cmd.rest...)...)
 	// fmt.Printf("args %v\n", args)
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
+			os.Exit(ee.ExitCode())
+		}
+		complain("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 2debc54bfa809867248e2f1480dfd18287c7ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 37/64] fix: make the fake server atomic for concurrent clients
 and complete for watches

---
 pkg/client/fake/fake_ckube.go | 40 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..c69edd1 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -32,8 +32,10 @@ type fakeCkubeServer struct {
 	ser           server.Server
 	kubeConfig    *rest.Config
 	eventChan     chan Event
-	watchChanMap  map[string]chan Event
+	watchChanMap  map[chan Event]string
 	watchChanLock sync.RWMutex
+	// changeLock makes checking, changing and reporting the change of a resource one step
+	changeLock sync.Mutex
 }
 
 func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
@@ -66,7 +68,7 @@ func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
 		kubeConfig: &rest.Config{
 			Host: addr,
 		},
-		watchChanMap: make(map[string]chan Event),
+		watchChanMap: make(map[chan Event]string),
 	}
 	ser := server.NewMuxServer(listenAddr, nil, m, s.registerFakeRoute)
 	s.ser = ser
@@ -103,6 +105,8 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
+	s.changeLock.Lock()
+	defer s.changeLock.Unlock()
 	s.ser.ResetStore(m, nil)
 	s.store = m
 }
@@ -272,8 +276,14 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 	paginate := page.Paginate{}
 	if labelSelectorStr != "" {
-		var err error
-		labels, _ := kube.ParseToLabelSelector(labelSelectorStr)
+		labels, err := kube.ParseToLabelSelector(labelSelectorStr)
+		if err != nil {
+			errorProxy(writer, metav1.Status{
+				Message: err.Error(),
+				Code:    400,
+			})
+			return
+		}
 		paginateStr := ""
 		if ps, ok := labels.MatchLabels[constants.PaginateKey]; ok {
 			paginateStr = ps
@@ -316,24 +326,24 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 
 	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
+	// with room for the changes which happen while one is being written
+	wc := make(chan Event, 1024)
+	s.watchChanMap[wc] = r.RemoteAddr
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	defer func() {
+		s.watchChanLock.Lock()
+		delete(s.watchChanMap, wc)
+		s.watchChanLock.Unlock()
+	}()
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
 	writer.Header().Set("Connection", "keep-alive")
 	writer.(http.Flusher).Flush()
 	for {
-		s.watchChanLock.RLock()
-		wc := s.watchChanMap[r.RemoteAddr]
-		s.watchChanLock.RUnlock()
 		select {
 		case <-ctx.Done():
-			s.watchChanLock.Lock()
-			close(s.watchChanMap[r.RemoteAddr])
-			delete(s.watchChanMap, r.RemoteAddr)
-			s.watchChanLock.Unlock()
 			return
 		case e := <-wc:
 			if e.Group == group &&
@@ -404,6 +414,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		})
 		return
 	}
+	s.changeLock.Lock()
+	defer s.changeLock.Unlock()
 	_ = json.Unmarshal(bs, &obj)
 	obj.Namespace = namespace
 	if resourceName == "" {
@@ -466,7 +478,7 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	default:
 	}
 	s.watchChanLock.RLock()
-	for remote, c := range s.watchChanMap {
+	for c, remote := range s.watchChanMap {
 		select {
 		case c <- e:
 			log.Debugf("succeed send stream to %s", remote)
-- 
2.43.0


From 073b3e00cbb6e10812e677338d7d551bbd804260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 38/64] fix: report every change of a watched file, and close
 the file watcher cleanly

---
 utils/fs_watcher.go | 101 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 24 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..51e3105 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -1,8 +1,10 @@
 package utils
 
 import (
+	"errors"
 	"io"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -32,6 +34,10 @@ type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
 	events    chan Event
+	done      chan struct{}
+	lock      sync.Mutex // of fswatcher and closed
+	closed    bool
+	running   sync.WaitGroup
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
@@ -39,6 +45,8 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	// only to see whether the files can be watched
+	defer w.Close()
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
@@ -50,56 +58,95 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	return &fixedFileWatcher{
 		files:  files,
 		events: make(chan Event),
+		done:   make(chan struct{}),
 	}, nil
 }
 
+// send delivers an event, unless the watcher is closed.
+func (w *fixedFileWatcher) send(name string, typ EventType) {
+	select {
+	case w.events <- Event{Name: name, Type: typ}:
+	case <-w.done:
+	}
+}
+
 func (w *fixedFileWatcher) Start() error {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+	if w.closed || w.fswatcher != nil {
+		return errors.New("file watcher is closed or started already")
+	}
 	ww, err := fsnotify.NewWatcher()
 	if err != nil {
 		return err
 	}
-	w.fswatcher = ww
 	for _, f := range w.files {
-		if err := w.fswatcher.Add(f); err != nil {
+		if err := ww.Add(f); err != nil {
+			_ = ww.Close()
 			return err
 		}
 	}
+	w.fswatcher = ww
+	w.running.Add(1)
 	go func() {
-		for { // nolint:gosimple
+		defer w.running.Done()
+		defer close(w.events)
+		missing := map[string]struct{}{}
+		var retry <-chan time.Time
+		for {
 			select {
-			case e, open := <-w.fswatcher.Events:
+			case <-w.done:
+				return
+			case <-retry:
+				retry = nil
+				for f := range missing {
+					if err := ww.Add(f); err != nil {
+						retry = time.After(time.Second * 2)
+						continue
+					}
+					delete(missing, f)
+					w.send(f, EventTypeChanged)
+				}
+			case err, open := <-ww.Errors:
+				if open {
+					// events may have been lost
+					log.Errorf("file watcher error: %v", err)
+					w.send("", EventTypeError)
+				}
+			case e, open := <-ww.Events:
 				if !open {
 					log.Info("fs watcher closed")
 					return
 				}
 				log.Infof("get file watcher event: %v", e)
-				switch e.Op {
-				case fsnotify.Write:
-					// do reload
-				case fsnotify.Remove:
+				switch {
+				case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
-					_ = w.fswatcher.Remove(e.Name)
-					time.Sleep(time.Second * 2)
+					_ = ww.Remove(e.Name)
+					select {
+					case <-time.After(time.Second * 2):
+					case <-w.done:
+						return
+					}
 					// 等待一定时间之后重新加入 watcher 队列
-					err := w.fswatcher.Add(e.Name)
+					err := ww.Add(e.Name)
 					if err != nil {
 						log.Errorf("add watcher for %s error: %v", e.Name, err)
-						w.events <- Event{
-							Name: e.Name,
-							Type: EventTypeError,
-						}
+						w.send(e.Name, EventTypeError)
+						// it may come back later
+						missing[e.Name] = struct{}{}
+						retry = time.After(time.Second * 2)
 						continue
 					}
 					// do reload
+				case e.Op&fsnotify.Write != 0:
+					// do reload
 				default:
 					// do not reload
 					continue
 				}
-				w.events <- Event{
-					Name: e.Name,
-					Type: EventTypeChanged,
-				}
+				w.send(e.Name, EventTypeChanged)
 			}
 		}
 	}()
@@ -107,13 +154,19 @@ func (w *fixedFileWatcher) Start() error {
 }
 
 func (w *fixedFileWatcher) Close() error {
-	if w.fswatcher != nil {
-		w.fswatcher.Close()
-		w.fswatcher = nil
+	w.lock.Lock()
+	defer w.lock.Unlock()
+	if w.closed {
+		return nil
+	}
+	w.closed = true
+	close(w.done)
+	if w.fswatcher == nil {
 		close(w.events)
-		w.events = nil
+		return nil
 	}
-	return nil
+	w.running.Wait()
+	return w.fswatcher.Close()
 }
 
 func (w *fixedFileWatcher) Events() <-chan Event {
-- 
2.43.0


From f87920380d8e375f674ca55049d9f55e037f071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 39/64] fix: strip the cluster marker also when the label
 selector is invalid

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 4da9ac3..d49e62a 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -132,6 +132,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			log.Warnf("read body error: %v", err)
 		}
 	}
+	// the marker of the cluster is never forwarded, even if the selector turns out to be invalid.
+	r.URL.RawQuery = query.Encode()
 	if labelSelectorStr != "" {
 		var err error
 		labels, err = kube.ParseToLabelSelector(labelSelectorStr)
-- 
2.43.0


From f0d9fb4aa8e8ab1efbebbbc5c841bc7853e79026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 40/64] fix: recognise watches as the api server does

---
 api/proxy.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index d49e62a..6b2e11d 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -391,17 +391,22 @@ func serverPrint(items []interface{}) interface{} {
 	return table
 }
 
+// isWatchRequest tells watches from other requests as the api server does: every watch parameter but
+// false and 0 asks for a watch, and so do the paths of the watch endpoints (not of a namespace called watch).
 func isWatchRequest(r *http.Request) bool {
-	query := r.URL.Query()
-	if w, ok := query["watch"]; ok {
-		ws := strings.ToLower(w[0])
-		if ws == "1" || ws == "y" || ws == "true" {
-			return true
-		}
+	if r.Method != http.MethodGet {
+		return false
 	}
-	if strings.Contains(r.URL.Path, "/watch/") {
+	if w, ok := r.URL.Query()["watch"]; ok && w[0] != "0" && !strings.EqualFold(w[0], "false") {
 		return true
 	}
+	parts := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
+	switch parts[0] {
+	case "api":
+		return len(parts) > 3 && parts[2] == "watch"
+	case "apis":
+		return len(parts) > 4 && parts[3] == "watch"
+	}
 	return false
 }
 
-- 
2.43.0


From 55124c39869872b623bcd7199c1b906309c59036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 41/64] fix: keep unknown deletion options when the cluster
 marker is removed

---
 api/proxy.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 6b2e11d..213c1d7 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -120,11 +120,18 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		opts, err := io.ReadAll(body)
 		if err == nil {
 			r.Body = wrapReader(bytes.NewReader(opts))
-			options := v1.DeleteOptions{}
+			// only the marker is taken out, fields unknown to this version stay.
+			options := map[string]json.RawMessage{}
+			dryRun := []string{}
 			_ = json.Unmarshal(opts, &options)
-			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-				cluster = options.DryRun[0][len(clusterPrefix):]
-				options.DryRun = options.DryRun[1:]
+			_ = json.Unmarshal(options["dryRun"], &dryRun)
+			if len(dryRun) > 0 && strings.HasPrefix(dryRun[0], clusterPrefix) {
+				cluster = dryRun[0][len(clusterPrefix):]
+				if len(dryRun) == 1 {
+					delete(options, "dryRun")
+				} else {
+					options["dryRun"], _ = json.Marshal(dryRun[1:])
+				}
 				bs, _ := json.Marshal(options)
 				r.Body = wrapReader(bytes.NewBuffer(bs))
 			}
-- 
2.43.0


From 58c3d643737df3ad465e063c839b5291ffec906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 42/64] fix: answer a watch when the cluster accepts it, not at
 its first event

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 213c1d7..432e18d 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -441,6 +441,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
+	// the client waits for the answer, the first event may be far away.
+	r.Writer.WriteHeader(http.StatusOK)
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-- 
2.43.0


From 240b3912b0e44b0e7fd9b7fc62632d35bf6e2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 43/64] fix: find the deployment of pods with several owners

---
 api/extend/deploy2service.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 46b3370..0abb7a9 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -83,10 +83,11 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 }
 
 func getDeploymentName(pod v12.Object) string {
-	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
-		return ""
-	} else {
-		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
-		return strings.Join(parts[:len(parts)-1], "-")
+	for _, owner := range pod.GetOwnerReferences() {
+		if owner.Kind == "ReplicaSet" {
+			parts := strings.Split(owner.Name, "-")
+			return strings.Join(parts[:len(parts)-1], "-")
+		}
 	}
+	return ""
 }
-- 
2.43.0


From 5f8f3bce011a99d7886cf7528b0750ddd6b95984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 44/64] fix: take the first argument as the subcommand, not the
 first get or create

---
 cmd/ckube-plugin/main.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 00d4143..4d2c7b0 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -26,7 +26,8 @@ var (
 	// options whose value is the next argument
 	valueFlag = regexp.MustCompile(`^(-[ARwh]*[nsofkLv]|--(namespace|server|context|cluster|user|kubeconfig|as|as-group|token|` +
 		`request-timeout|output|filename|kustomize|field-selector|label-columns|sort-by|template|chunk-size|raw|v|cache-dir|` +
-		`certificate-authority|client-certificate|client-key|tls-server-name|username|password))$`)
+		`certificate-authority|client-certificate|client-key|tls-server-name|username|password|as-uid|kuberc|profile|profile-output|` +
+		`log-backtrace-at|log-dir|log-file|log-file-max-size|log-flush-frequency|stderrthreshold|vmodule))$`)
 )
 
 // command is a kubectl command line taken apart.
@@ -42,6 +43,7 @@ type command struct {
 
 func parse(in []string) (*command, error) {
 	c := &command{typ: notSupport, selectorPos: -1}
+	verb := "" // the first argument which is no option
 	next := func(i int) error {
 		if i+1 >= len(in) {
 			return errors.New("value of option " + in[i] + " is missing")
@@ -95,13 +97,16 @@ func parse(in []string) (*command, error) {
 				i++
 				a = in[i]
 			}
-		case c.typ != notSupport:
-		case a == "get":
-			c.typ = get
-		case a == "create":
-			c.typ = create
-			// case "delete":
-			//	typ = del
+		case verb == "" && !strings.HasPrefix(a, "-"):
+			verb = a
+			switch a {
+			case "get":
+				c.typ = get
+			case "create":
+				c.typ = create
+				// case "delete":
+				//	typ = del
+			}
 		}
 		c.args = append(c.args, a)
 	}
-- 
2.43.0


From ee75856ca78d6ab42ba72364222f18365137cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 45/64] fix: let routed handlers flush, as the fake server's
 watch routes do

---
 server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server.go b/server/server.go
index dcab5d3..b455aac 100644
--- a/server/server.go
+++ b/server/server.go
@@ -61,6 +61,11 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// Flush implements http.Flusher, which handlers of watches need.
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 050d8be3d5fd1f98d35f02d49677671984dc0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 46/64] fix: answer with the complete object in the fake server

---
 pkg/client/fake/fake_ckube.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index c69edd1..7f1ad61 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -487,5 +487,5 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 	s.watchChanLock.RUnlock()
-	jsonResp(writer, 200, obj)
+	jsonResp(writer, 200, &obj)
 }
-- 
2.43.0


From a7a8f4957a007a7f8516a1fd5ab4f66803be5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 47/64] fix: proxy requests to exactly the path they name

Encoded slashes were decoded on the way to the cluster, and paths with double
slashes or dot segments were answered with a redirect.
---
 api/proxy.go     | 30 ++++++++++++++++++++++++++++--
 server/server.go |  3 ++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 432e18d..65da91d 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"reflect"
 	"sort"
 	"strings"
@@ -426,7 +427,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		}
 	}
 	r.Request.URL.RawQuery = q.Encode()
-	u := r.Request.URL.String()
+	u := requestURI(r.Request)
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
@@ -472,6 +473,30 @@ type errReader struct{ err error }
 
 func (e errReader) Read([]byte) (int, error) { return 0, e.err }
 
+// exactPath sends requests to the path of uri as it is escaped there, which a rest.Request can not express.
+type exactPath struct {
+	transport http.RoundTripper
+	uri       *url.URL
+}
+
+func (e exactPath) RoundTrip(req *http.Request) (*http.Response, error) {
+	if req.Response == nil { // not redirected by the api server
+		u := *req.URL
+		u.Path, u.RawPath = e.uri.Path, e.uri.RawPath
+		req = req.WithContext(req.Context())
+		req.URL = &u
+	}
+	if e.transport == nil {
+		return http.DefaultTransport.RoundTrip(req)
+	}
+	return e.transport.RoundTrip(req)
+}
+
+// requestURI is the URI of the request, with one slash in front also where it has several.
+func requestURI(r *http.Request) string {
+	return "/" + strings.TrimLeft(r.URL.EscapedPath(), "/") + "?" + r.URL.RawQuery
+}
+
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
 	shared := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	// the timeout is this request's own, and the client is used by others.
@@ -480,6 +505,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 		client = *shared.Client
 	}
 	client.Timeout = timeout
+	client.Transport = exactPath{client.Transport, r.Request.URL}
 	c.Client = &client
 	var req *rest.Request
 	switch r.Request.Method {
@@ -525,7 +551,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	if isWatchRequest(r.Request) {
 		return proxyPassWatch(r, cluster)
 	}
-	u := r.Request.URL.String()
+	u := requestURI(r.Request)
 	log.Debugf("proxyPass url: %s", u)
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
diff --git a/server/server.go b/server/server.go
index b455aac..cfb2a74 100644
--- a/server/server.go
+++ b/server/server.go
@@ -91,7 +91,8 @@ func NewMuxServer(listenAddr string, clusterClients map[string]kubernetes.Interf
 		clusterClients: clusterClients,
 		store:          s,
 		ListenAddr:     listenAddr,
-		router:         mux.NewRouter(),
+		// requests which are proxied go to the path they name, not to a clean one.
+		router: mux.NewRouter().SkipClean(true),
 	}
 	for _, h := range externalRouter {
 		h(ser.router)
-- 
2.43.0


From b2f9b8171b3837f3e2651f0a8a329e1ae5545213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 48/64] fix: reach api servers which are served below a path

---
 api/proxy.go       | 10 +++++++---
 watcher/watcher.go | 11 +++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 65da91d..42e3b04 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -473,16 +473,19 @@ type errReader struct{ err error }
 
 func (e errReader) Read([]byte) (int, error) { return 0, e.err }
 
-// exactPath sends requests to the path of uri as it is escaped there, which a rest.Request can not express.
+// exactPath sends requests to the path of uri as it is escaped there, which a rest.Request can not express,
+// below the path the api server is reached at.
 type exactPath struct {
 	transport http.RoundTripper
+	base      string
 	uri       *url.URL
 }
 
 func (e exactPath) RoundTrip(req *http.Request) (*http.Response, error) {
 	if req.Response == nil { // not redirected by the api server
 		u := *req.URL
-		u.Path, u.RawPath = e.uri.Path, e.uri.RawPath
+		u.Path = e.base + e.uri.Path
+		u.RawPath = (&url.URL{Path: e.base}).EscapedPath() + e.uri.EscapedPath()
 		req = req.WithContext(req.Context())
 		req.URL = &u
 	}
@@ -505,7 +508,8 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 		client = *shared.Client
 	}
 	client.Timeout = timeout
-	client.Transport = exactPath{client.Transport, r.Request.URL}
+	base := strings.TrimSuffix(shared.Get().AbsPath("/").URL().Path, "/")
+	client.Transport = exactPath{client.Transport, base, r.Request.URL}
 	c.Client = &client
 	var req *rest.Request
 	switch r.Request.Method {
diff --git a/watcher/watcher.go b/watcher/watcher.go
index ffa75af..d9569ed 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -139,10 +139,10 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 }
 
 // isEmpty reports whether the API server confirms that there are no objects.
-func isEmpty(ctx context.Context, rt rest.Interface, listURL string) bool {
+func isEmpty(ctx context.Context, rt rest.Interface, url string) bool {
 	ctx, cancel := context.WithTimeout(ctx, time.Second*10)
 	defer cancel()
-	bs, err := rt.Get().RequestURI(listURL).MaxRetries(0).DoRaw(ctx)
+	bs, err := rt.Get().AbsPath(url).Param("limit", "1").MaxRetries(0).DoRaw(ctx)
 	if err != nil {
 		return false
 	}
@@ -192,15 +192,14 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		} else {
 			url = fmt.Sprintf("/apis/%s/%s/%s", r.Group, r.Version, r.Resource)
 		}
-		listURL := url + "?limit=1"
-		url += "?watch=true"
 		first := true
-		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
+		// AbsPath is below the path the api server is reached at.
+		ww, err := rt.Get().AbsPath(url).Param("watch", "true").Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			w.sleep(time.Second * 15)
 		} else {
-			if isEmpty(ctx, rt, listURL) {
+			if isEmpty(ctx, rt, url) {
 				// no event will tell that the last objects have gone.
 				_ = w.store.Clean(r, cluster)
 			}
-- 
2.43.0


From e89ecf639f828cfece16e614dff15d6a3e9be39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 49/64] fix: pass on the content type of the body

---
 api/proxy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 42e3b04..1065cfe 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -526,6 +526,10 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	default:
 		req = c.Verb(r.Request.Method)
 	}
+	// without it the api server takes every body for JSON.
+	if ct := r.Request.Header.Get("Content-Type"); ct != "" {
+		req = req.SetHeader("Content-Type", ct)
+	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
 	//		req = req.SetHeader(k, v[0])
-- 
2.43.0


From b9147d47ea4e0023b3bb8fb7e1f51f410dcc82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 50/64] fix: follow the config file when there is no kubeconfig
 to watch

---
 cmd/cacheproxy/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 03b7493..ac0201b 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -182,10 +182,11 @@ func main() {
 	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
-	if kubeConfig == "" {
-		files = append(files, defaultConfig)
-	} else {
+	if kubeConfig != "" {
 		files = append(files, kubeConfig)
+	} else if _, err := os.Stat(defaultConfig); err == nil {
+		// there is none when running in a pod.
+		files = append(files, defaultConfig)
 	}
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
 	if err != nil {
-- 
2.43.0


From 3a91df0747d70bb4d654cb79a9d7dd9b71075d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 51/64] fix: release what belongs to a watch when it ends

---
 api/proxy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/proxy.go b/api/proxy.go
index 1065cfe..487c64f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -439,6 +439,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		}
 		return err
 	}
+	defer reader.Close()
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
-- 
2.43.0


From 4077078353bba06e72f1b2c2990c9632ca5f5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 52/64] fix: do not limit the rate of forwarded requests

---
 api/proxy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 487c64f..95c39fe 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -512,10 +512,11 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	base := strings.TrimSuffix(shared.Get().AbsPath("/").URL().Path, "/")
 	client.Transport = exactPath{client.Transport, base, r.Request.URL}
 	c.Client = &client
+	// the rate limit of the client is lifted: it is shared by all who come through here, and those beyond it would fail.
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
-		return c.Get()
+		return c.Get().Throttle(nil)
 	case http.MethodPost:
 		req = c.Post()
 	case http.MethodDelete:
@@ -527,6 +528,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	default:
 		req = c.Verb(r.Request.Method)
 	}
+	req = req.Throttle(nil)
 	// without it the api server takes every body for JSON.
 	if ct := r.Request.Header.Get("Content-Type"); ct != "" {
 		req = req.SetHeader("Content-Type", ct)
-- 
2.43.0


From 0e32f057a991fa66ec08178964436c3fe99edae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 53/64] fix: end the connections which are left when the server
 is stopped

---
 server/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index cfb2a74..992f599 100644
--- a/server/server.go
+++ b/server/server.go
@@ -121,7 +121,12 @@ func (m *muxServer) Stop() error {
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 	defer cancel()
 	log.Infof("shutting down the server...")
-	return m.server.Shutdown(ctx)
+	err := m.server.Shutdown(ctx)
+	if err != nil {
+		// watches do not end by themselves.
+		_ = m.server.Close()
+	}
+	return err
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
-- 
2.43.0


From fc76e4d302fe29c7e85338a694ad87903645b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 54/64] fix: stopping the server was a data race with running
 it

---
 server/server.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 992f599..a64a977 100644
--- a/server/server.go
+++ b/server/server.go
@@ -104,27 +104,33 @@ func NewMuxServer(listenAddr string, clusterClients map[string]kubernetes.Interf
 }
 
 func (m *muxServer) Run() error {
-	m.server = &http.Server{
+	ser := &http.Server{
 		Addr:         m.ListenAddr,
 		Handler:      m.router,
 		ReadTimeout:  30 * time.Minute,
 		WriteTimeout: 30 * time.Minute,
 	}
+	m.lock.Lock()
+	m.server = ser
+	m.lock.Unlock()
 	log.Infof("starting server at %v", m.ListenAddr)
-	return m.server.ListenAndServe()
+	return ser.ListenAndServe()
 }
 
 func (m *muxServer) Stop() error {
-	if m.server == nil {
+	m.lock.RLock()
+	ser := m.server
+	m.lock.RUnlock()
+	if ser == nil {
 		return fmt.Errorf("server not start ever")
 	}
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 	defer cancel()
 	log.Infof("shutting down the server...")
-	err := m.server.Shutdown(ctx)
+	err := ser.Shutdown(ctx)
 	if err != nil {
 		// watches do not end by themselves.
-		_ = m.server.Close()
+		_ = ser.Close()
 	}
 	return err
 }
-- 
2.43.0


From 05dbead193cb5f6bcbc37db02aa50c6dad154c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 55/64] fix: tell when the fake server can not be started

---
 pkg/client/fake/fake_ckube.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 7f1ad61..ffca1a6 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -72,11 +72,18 @@ func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
 	}
 	ser := server.NewMuxServer(listenAddr, nil, m, s.registerFakeRoute)
 	s.ser = ser
-	go ser.Run() // nolint: errcheck
+	ended := make(chan error, 1)
+	go func() { ended <- ser.Run() }()
 	for i := 0; i < 5; i++ {
-		time.Sleep(time.Millisecond * 100 * time.Duration(1<<i))
-		_, err := http.Get(addr + "/metrics")
+		select {
+		case err := <-ended:
+			// somebody else may answer there.
+			return nil, err
+		case <-time.After(time.Millisecond * 100 * time.Duration(1<<i)):
+		}
+		resp, err := http.Get(addr + "/metrics")
 		if err == nil {
+			_ = resp.Body.Close()
 			return &s, nil
 		}
 	}
-- 
2.43.0


From c5ec5e9a67b49b6cb6122c060d115638608d8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 56/64] fix: discovery of the fake server tells groups,
 versions and their own resources

---
 pkg/client/fake/fake_ckube.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index ffca1a6..930cb7c 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -195,6 +195,9 @@ func resources(writer http.ResponseWriter, r *http.Request) {
 		res.GroupVersion = fmt.Sprintf("%s/%s", group, version)
 	}
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group != group || p.Version != version {
+			continue
+		}
 		res.APIResources = append(res.APIResources, metav1.APIResource{
 			Name:         p.Resource,
 			SingularName: "",
@@ -227,26 +230,28 @@ func api(writer http.ResponseWriter, r *http.Request) {
 func apis(writer http.ResponseWriter, r *http.Request) {
 	a := metav1.APIGroupList{}
 
+	groups := map[string]int{}
+	told := map[string]bool{}
 	for _, p := range common.GetConfig().Proxies {
-		find := false
-		for _, g := range a.Groups {
-			if g.Name == p.Group {
-				g.Versions = append(g.Versions, metav1.GroupVersionForDiscovery{
-					GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
-					Version:      p.Version,
-				})
-				find = true
-				break
-			}
+		gv := metav1.GroupVersionForDiscovery{
+			GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
+			Version:      p.Version,
+		}
+		// the group without name is told by /api
+		if p.Group == "" || told[gv.GroupVersion] {
+			continue
 		}
-		if !find {
+		told[gv.GroupVersion] = true
+		i, ok := groups[p.Group]
+		if !ok {
+			i = len(a.Groups)
+			groups[p.Group] = i
 			a.Groups = append(a.Groups, metav1.APIGroup{
-				Name:                       p.Group,
-				Versions:                   nil,
-				PreferredVersion:           metav1.GroupVersionForDiscovery{},
-				ServerAddressByClientCIDRs: nil,
+				Name:             p.Group,
+				PreferredVersion: gv,
 			})
 		}
+		a.Groups[i].Versions = append(a.Groups[i].Versions, gv)
 	}
 	jsonResp(writer, 200, a)
 }
-- 
2.43.0


From 7ea95bfad9b8e64e48ef0f70aaa589316c04bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 57/64] fix: pass on the content type of the api server's
 answer

---
 api/proxy.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 95c39fe..45cc6ae 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -432,7 +432,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	timeout := 30 * time.Minute
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
-	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
+	contentType := "application/json"
+	reader, err := getRequest(r, cluster, timeout, &contentType).RequestURI(u).Stream(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
@@ -440,7 +441,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		return err
 	}
 	defer reader.Close()
-	r.Writer.Header().Set("Content-Type", "application/json")
+	r.Writer.Header().Set("Content-Type", contentType)
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
 	// the client waits for the answer, the first event may be far away.
@@ -480,6 +481,8 @@ type exactPath struct {
 	transport http.RoundTripper
 	base      string
 	uri       *url.URL
+	// contentType is set to that of the answer, if it has one
+	contentType *string
 }
 
 func (e exactPath) RoundTrip(req *http.Request) (*http.Response, error) {
@@ -490,10 +493,17 @@ func (e exactPath) RoundTrip(req *http.Request) (*http.Response, error) {
 		req = req.WithContext(req.Context())
 		req.URL = &u
 	}
-	if e.transport == nil {
-		return http.DefaultTransport.RoundTrip(req)
+	transport := e.transport
+	if transport == nil {
+		transport = http.DefaultTransport
 	}
-	return e.transport.RoundTrip(req)
+	resp, err := transport.RoundTrip(req)
+	if err == nil {
+		if ct := resp.Header.Get("Content-Type"); ct != "" {
+			*e.contentType = ct
+		}
+	}
+	return resp, err
 }
 
 // requestURI is the URI of the request, with one slash in front also where it has several.
@@ -501,7 +511,7 @@ func requestURI(r *http.Request) string {
 	return "/" + strings.TrimLeft(r.URL.EscapedPath(), "/") + "?" + r.URL.RawQuery
 }
 
-func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
+func getRequest(r *ReqContext, cluster string, timeout time.Duration, contentType *string) *rest.Request {
 	shared := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	// the timeout is this request's own, and the client is used by others.
 	c, client := *shared, http.Client{}
@@ -510,7 +520,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	}
 	client.Timeout = timeout
 	base := strings.TrimSuffix(shared.Get().AbsPath("/").URL().Path, "/")
-	client.Transport = exactPath{client.Transport, base, r.Request.URL}
+	client.Transport = exactPath{client.Transport, base, r.Request.URL, contentType}
 	c.Client = &client
 	// the rate limit of the client is lifted: it is shared by all who come through here, and those beyond it would fail.
 	var req *rest.Request
@@ -568,7 +578,8 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 	var code int
-	result := getRequest(r, cluster, timeout).RequestURI(u).Do(ctx).StatusCode(&code)
+	contentType := "application/json"
+	result := getRequest(r, cluster, timeout, &contentType).RequestURI(u).Do(ctx).StatusCode(&code)
 	res, err := result.Raw()
 	if err != nil && (code == 0 || len(res) == 0) {
 		if es, ok := err.(*errors.StatusError); ok {
@@ -576,7 +587,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 		}
 		return err
 	}
-	r.Writer.Header().Set("Content-Type", "application/json")
+	r.Writer.Header().Set("Content-Type", contentType)
 	r.Writer.WriteHeader(code)
 	return res
 }
-- 
2.43.0


From afda42e82575e3de6b4d9107d356e921062c074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 58/64] fix: send followed logs as they are written

---
 api/proxy.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 45cc6ae..981882e 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -470,6 +470,15 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
+// isFollowedLog tells logs which are sent as they are written from those which end.
+func isFollowedLog(r *http.Request) bool {
+	if r.Method != http.MethodGet || !strings.HasPrefix(r.URL.Path, "/api/") || !strings.HasSuffix(r.URL.Path, "/log") {
+		return false
+	}
+	f, ok := r.URL.Query()["follow"]
+	return ok && f[0] != "0" && !strings.EqualFold(f[0], "false")
+}
+
 // errReader fails with the error of the request body it stands for.
 type errReader struct{ err error }
 
@@ -569,7 +578,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 			Code:    404,
 		})
 	}
-	if isWatchRequest(r.Request) {
+	if isWatchRequest(r.Request) || isFollowedLog(r.Request) {
 		return proxyPassWatch(r, cluster)
 	}
 	u := requestURI(r.Request)
-- 
2.43.0


From f2ff70d1b5e0a49f2efd98ba97e15bb31ce3f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 59/64] fix: follow the files from before they are read, not
 from after

---
 cmd/cacheproxy/main.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index ac0201b..c54ff05 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -174,13 +174,6 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
-	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
-	if err != nil {
-		log.Errorf("load from config file error: %v", err)
-		os.Exit(1)
-	}
-	_ = w.Start()
-	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig != "" {
 		files = append(files, kubeConfig)
@@ -188,13 +181,23 @@ func main() {
 		// there is none when running in a pod.
 		files = append(files, defaultConfig)
 	}
-	fixedWatcher, err := utils.NewFixedFileWatcher(files)
-	if err != nil {
-		log.Errorf("create watcher error: %v", err)
-	} else {
+	fixedWatcher, watchErr := utils.NewFixedFileWatcher(files)
+	if watchErr == nil {
+		// before the files are read, to see all changes from then on.
 		if err := fixedWatcher.Start(); err != nil {
 			panic(fmt.Errorf("watcher start error: %v", err))
 		}
+	}
+	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
+	if err != nil {
+		log.Errorf("load from config file error: %v", err)
+		os.Exit(1)
+	}
+	_ = w.Start()
+	ser := server.NewMuxServer(listen, clis, s)
+	if watchErr != nil {
+		log.Errorf("create watcher error: %v", watchErr)
+	} else {
 		defer fixedWatcher.Close()
 		go func() {
 			for e := range fixedWatcher.Events() {
-- 
2.43.0


From 84095029f328b9b72a26db49e0c41366eefa9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 60/64] fix: refuse a configuration with a resource without
 version instead of crashing

---
 cmd/cacheproxy/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index c54ff05..dce0c52 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -78,6 +78,12 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			return nil, nil, nil, err
 		}
 	}
+	for _, proxy := range cfg.Proxies {
+		if proxy.Version == "" {
+			log.Errorf("config file load error: no version of resource %q", proxy.Resource)
+			return nil, nil, nil, fmt.Errorf("no version of resource %q", proxy.Resource)
+		}
+	}
 	clusterConfigs := map[string]rest.Config{}
 	clusterClients := map[string]kubernetes.Interface{}
 	kubecfg := kubeapi.Config{}
-- 
2.43.0


From 777540cdd99d80570bfaabf69c1bc05125e43c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 61/64] fix: make clients from the configuration that was
 checked, not from the file once more

---
 cmd/cacheproxy/main.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index dce0c52..6464a5b 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -57,14 +57,6 @@ func GetK8sConfigConfigWithFile(kubeconfig, context string) *rest.Config {
 	return config
 }
 
-func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interface, error) {
-	clientset, err := kubernetes.NewForConfig(GetK8sConfigConfigWithFile(kubeconfig, context))
-	if err != nil {
-		return nil, err
-	}
-	return clientset, err
-}
-
 func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
 
 	cfg := common.Config{}
@@ -101,7 +93,7 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 				cfg.DefaultCluster = "default"
 			}
 			clusterConfigs[cfg.DefaultCluster] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, "")
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				return nil, nil, nil, err
 			}
@@ -134,7 +126,8 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 				return nil, nil, nil, fmt.Errorf("init k8s config error")
 			}
 			clusterConfigs[ctx.Name] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, ctx.Name)
+			// not from the file once more, which may have changed meanwhile.
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				log.Errorf("init k8s client error: %v", err)
 				return nil, nil, nil, err
-- 
2.43.0


From 951d12087e7abf5c6b1acc5a1701a8fd08c25ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 62/64] fix: keep the clusters in service when the kubeconfig
 is empty

---
 cmd/cacheproxy/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 6464a5b..492da9b 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -108,6 +109,11 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			log.Errorf("read kube config error: %v", err)
 			return nil, nil, nil, err
 		}
+		if len(bytes.TrimSpace(bs)) == 0 {
+			// it is being written.
+			log.Errorf("kube config %s is empty", kubeConfig)
+			return nil, nil, nil, fmt.Errorf("kube config %s is empty", kubeConfig)
+		}
 		err = yaml.Unmarshal(bs, &kubecfg)
 		if err != nil {
 			err = json.Unmarshal(bs, &kubecfg)
-- 
2.43.0


From bc11047a8de349b7efdbb2c2716b7e477ff951ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 63/64] fix: tell those who watch the fake server the namespace
 of objects

---
 pkg/client/fake/fake_ckube.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 930cb7c..6384445 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -429,6 +429,11 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	s.changeLock.Lock()
 	defer s.changeLock.Unlock()
 	_ = json.Unmarshal(bs, &obj)
+	if r.Method != "DELETE" && obj.Namespace != namespace {
+		// objects are sent without the namespace they are created in, those who watch are told it.
+		obj.Namespace = namespace
+		bs, _ = json.Marshal(&obj)
+	}
 	obj.Namespace = namespace
 	if resourceName == "" {
 		resourceName = obj.Name
-- 
2.43.0


From f9c3c8cc1e9e810a58c7a8494a133b5b22ad42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 64/64] fix: refuse objects of unknown types at the fake server
 instead of crashing

---
 pkg/client/fake/fake_ckube.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 6384445..31ab9c9 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -428,6 +428,13 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	}
 	s.changeLock.Lock()
 	defer s.changeLock.Unlock()
+	if !s.store.IsStoreGVR(gvr) {
+		errorProxy(writer, metav1.Status{
+			Message: fmt.Sprintf("the server could not find the requested resource %v", gvr),
+			Code:    404,
+		})
+		return
+	}
 	_ = json.Unmarshal(bs, &obj)
 	if r.Method != "DELETE" && obj.Namespace != namespace {
 		// objects are sent without the namespace they are created in, those who watch are told it.
-- 
2.43.0

