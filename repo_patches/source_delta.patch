From 61f56765629c069e56af8045520de4070321d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 01/42] fix: make SimpleCache.Clear safe against concurrent Get
 and Set

Clear replaced the sync.Map while readers and writers were using it (a data
race), although the type is documented as safe for concurrent use.
---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..fa22fd1 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,7 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
+	mu    sync.RWMutex // readers and writers of items hold it shared, Clear replaces items under it
 	items sync.Map
 }
 
@@ -18,6 +18,8 @@ func NewCache() *SimpleCache {
 
 // Get returns the value for the given key, and a boolean indicating whether the key was found.
 func (c *SimpleCache) Get(key string) (string, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if value, ok := c.items.Load(key); ok {
 		return value.(string), true
 	}
@@ -26,6 +28,8 @@ func (c *SimpleCache) Get(key string) (string, bool) {
 
 // Set sets the value for the given key.
 func (c *SimpleCache) Set(key string, data string) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	c.items.Store(key, data)
 }
 
-- 
2.43.0


From 2f7eeeb375ff59f382ffd7c7ba5a98c5caaa5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 02/42] fix: let Merge run concurrently with AddRules

Merge read the rules map without the lock AddRules writes it under (a data
race, and a fatal concurrent map access), and could store a result computed
from the old rules in the cache after AddRules had cleared it.
---
 merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..7da319c 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // AddRules holds it exclusively, Merge shares it while it reads the rules and fills the cache
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -206,6 +206,8 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	split := strings.Split(strings.TrimSpace(inClass), " ")
 	if len(split) < 2 {
 		return inClass
-- 
2.43.0


From 41c8915d78cd9b8444df7665c434f0c922dd6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 03/42] fix: do not panic on @media or @supports without a
 condition

An empty media query list applies to all media, it is valid CSS.
---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..8bf601b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 9160bd852538dc8dc92e4b3cba49d4e66ef2dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 04/42] fix: keep every enclosing condition of nested at-rules

A rule inside nested @media/@supports blocks only got the innermost condition,
and a rule after an inner block got none at all, so it was compared with
unconditional rules. The end of an at-rule nested in an ignored one also ended
the ignored block.
---
 internal/cascadia/rules.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8bf601b..bfafb47 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"slices"
 	"strings"
 
 	"github.com/tdewolff/parse/v2"
@@ -120,6 +121,19 @@ foundEsc:
 	return buf.String()
 }
 
+// joinConditions combines the conditions of nested at-rules into one.
+// The nesting order does not matter, so it is not kept.
+func joinConditions(conditions []string) string {
+	set := make([]string, 0, len(conditions))
+	for _, c := range conditions {
+		if c != "" && !slices.Contains(set, c) {
+			set = append(set, c)
+		}
+	}
+	slices.Sort(set)
+	return strings.Join(set, "{")
+}
+
 func normalizeWhitespace(s string) string {
 	return strings.Join(strings.Fields(s), " ")
 }
@@ -129,12 +143,18 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleCondition string
-	ignore := false
+	var atRuleConditions []string // conditions of the enclosing at-rules, outermost first
+	ignore := 0                   // number of open at-rules, counted from the outermost ignored one
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		if ignore > 0 {
+			switch gt {
+			case css.BeginAtRuleGrammar:
+				ignore++
+			case css.EndAtRuleGrammar:
+				ignore--
+			}
 			continue
 		}
 
@@ -157,17 +177,17 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-				atRuleCondition = ""
-				ignore = true
+				ignore = 1
 				continue
 			}
-			atRuleCondition = condition
+			atRuleConditions = append(atRuleConditions, condition)
 		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
+			if n := len(atRuleConditions); n > 0 {
+				atRuleConditions = atRuleConditions[:n-1]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-			currentRule.condition = atRuleCondition
+			currentRule.condition = joinConditions(atRuleConditions)
 			sel, err := getSelector(data, p.Values())
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-- 
2.43.0


From 21ffd55b35954d97ae2c4310c4ff5a18b72cc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 05/42] fix: tell @supports conditions from @media conditions

Both were reduced to their text, so rules under @supports (display:grid) and
under @media (display:grid) were taken to apply in the same circumstance.
---
 internal/cascadia/rules.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index bfafb47..3020d6f 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -180,6 +180,9 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				ignore = 1
 				continue
 			}
+			if name != "@media" {
+				condition = name + " " + condition
+			}
 			atRuleConditions = append(atRuleConditions, condition)
 		case css.EndAtRuleGrammar:
 			if n := len(atRuleConditions); n > 0 {
-- 
2.43.0


From e23a3ce38bb5a5763c90a42a1cdf5f8c424fa233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 06/42] fix: end the parse when the input ends inside a skipped
 block

After a parse error in a skipped block (an ignored at-rule, a rule with an
unsupported selector) the css parser may not report the end of the block, and
ExtractRules then looped forever on the end of the input, for instance on
@keyframes x { from }.
---
 internal/cascadia/rules.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 3020d6f..0b147a6 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -148,6 +148,15 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
+		if gt == css.ErrorGrammar && (ignore > 0 || ruleSetErr) {
+			if !p.HasParseError() {
+				// The input ended, or cannot be read, inside a block that is being skipped:
+				// after some parse errors the parser does not report the end of that block.
+				return rules, fmt.Errorf("encountered error parsing CSS: unbalanced block")
+			}
+			continue
+		}
+
 		if ignore > 0 {
 			switch gt {
 			case css.BeginAtRuleGrammar:
-- 
2.43.0


From ebd43df1b6b086e49fcada552a3a39152868e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 07/42] fix: register every selector of a comma-separated
 selector list

Only the selector after the last comma was kept, so .a in '.a, .b { }' was an
unknown class; a comma within parentheses (:is(.a, .b)) broke the selector.
---
 internal/cascadia/rules.go | 61 ++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 0b147a6..35f60de 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -68,14 +68,45 @@ type CssDeclaration struct {
 	Value    string // Value is the value for the declaration (e.g., "red")
 }
 
-// getSelector parses the selector from the tokens
-func getSelector(data []byte, tokens []css.Token) (Sel, error) {
-	fullSelector := strings.Builder{}
+// selectorList collects the selectors of a ruleset (".a, .b"). The css parser splits the
+// list at every comma, also at those within parentheses (":is(.a, .b)").
+type selectorList struct {
+	texts []string
+	depth int // number of open parentheses in the last text
+}
+
+// add adds the tokens up to the next comma
+func (l *selectorList) add(tokens []css.Token) {
+	text := strings.Builder{}
+	nested := l.depth > 0
 	for _, val := range tokens {
-		fullSelector.Write(val.Data)
+		switch val.TokenType {
+		case css.FunctionToken, css.LeftParenthesisToken:
+			l.depth++
+		case css.RightParenthesisToken:
+			l.depth--
+		}
+		text.Write(val.Data)
 	}
-	casc, err := ParseWithPseudoElement(fullSelector.String())
-	return casc, err
+	if nested {
+		l.texts[len(l.texts)-1] += "," + text.String()
+		return
+	}
+	l.texts = append(l.texts, text.String())
+}
+
+// parse returns the selectors that could be parsed
+func (l *selectorList) parse() []Sel {
+	sels := make([]Sel, 0, len(l.texts))
+	for _, text := range l.texts {
+		sel, err := ParseWithPseudoElement(text)
+		if err != nil {
+			log.Println("error parsing rule:", err) // TODO: LOG this better
+			continue
+		}
+		sels = append(sels, sel)
+	}
+	return sels
 }
 
 // parses the name of an at-rule and its values if it's a media query
@@ -143,6 +174,8 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
+	var selectors selectorList    // the selectors of the next ruleset
+	var currentSelectors []Sel    // the selectors of the current ruleset
 	var atRuleConditions []string // conditions of the enclosing at-rules, outermost first
 	ignore := 0                   // number of open at-rules, counted from the outermost ignored one
 	ruleSetErr := false
@@ -200,19 +233,23 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = joinConditions(atRuleConditions)
-			sel, err := getSelector(data, p.Values())
-			if err != nil {
-				log.Println("error parsing rule:", err) // TODO: LOG this better
+			selectors.add(p.Values())
+			currentSelectors = selectors.parse()
+			selectors = selectorList{}
+			if len(currentSelectors) == 0 {
 				ruleSetErr = true
-				currentRule = CssRule{}
 				continue
 			}
-			currentRule.Selector = sel
+		case css.QualifiedRuleGrammar:
+			selectors.add(p.Values())
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range currentSelectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From 4efae8b2e559c63da6e4c171654519b8dd214413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 08/42] fix: restore the byte after the stylesheet in the
 caller's buffer

Given a bytes.Buffer, the parser writes a NUL into the caller's memory just
past the unread bytes; it was never restored.
---
 internal/cascadia/rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 35f60de..ddb6853 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -170,7 +170,9 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-	p := css.NewParser(parse.NewInput(r), inline)
+	input := parse.NewInput(r)
+	defer input.Restore() // the input borrows the bytes of a bytes.Buffer and writes one past their end
+	p := css.NewParser(input, inline)
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-- 
2.43.0


From df80acd0e1e5c0277224bcebd35744c524a7cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 09/42] fix: keep the at-rule condition of a class with
 pseudo-classes

GetCondition returned only the pseudo-classes of a compound selector, so
md:hover:p-2 (in @media) and hover:p-4 were taken to conflict.
---
 internal/cascadia/rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index ddb6853..0a7cea9 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -46,7 +46,7 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		return r.condition + t.PseudoElementsString()
 	}
 	return r.condition
 }
-- 
2.43.0


From 2cfe0874b68f77e3a575cc3afdb19ec018d65359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 10/42] fix: compare pseudo-elements only with the same
 pseudo-element

The pseudo-element was not part of the circumstance a class applies in, so
.a::before was taken to conflict with .b and with .c::after.
---
 internal/cascadia/selector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From 5964c0285ed8ea68577416ab69271ce64c737a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 11/42] fix: treat :is() and :where() as part of the
 circumstance

.a:is(:hover) was taken to apply unconditionally, because IsPseudoElement did
not know :is() and :where() and they were left out of the condition.
---
 internal/cascadia/pseudo_classes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 78b9427..96522ea 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -615,6 +615,10 @@ func IsPseudoElement(sel Sel) bool {
 	switch sel.(type) {
 	case abstractPseudoClass:
 		return true
+	case IsPseudoClassSelector:
+		return true
+	case WherePseudoClassSelector:
+		return true
 	case RelativePseudoClassSelector:
 		return true
 	case ContainsPseudoClassSelector:
-- 
2.43.0


From 5bebcffd6ebc121a2dd3ad6e9f1366b1530bc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 12/42] fix: keep the at-rule condition of structural selectors

The circumstance of a selector with combinators or attributes left out the
enclosing @media, so md:space-x-2 and space-x-4 were taken to conflict.
---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 7da319c..02b2d95 100644
--- a/merge.go
+++ b/merge.go
@@ -188,7 +188,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + strings.Replace(s, class, "", 1)
 	}
 }
 
-- 
2.43.0


From d872f9df73f9508d4733af3857a89dac020ba78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 13/42] fix: only remove the whole class name from a structural
 selector

propModifier removed the first occurrence of the name as a substring, so for
.sidebar .bar it removed a part of .sidebar, and .sidebar .bar and
.sidebar .qux were not recognized as applying in the same circumstance.
---
 merge.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 02b2d95..0968ff0 100644
--- a/merge.go
+++ b/merge.go
@@ -187,11 +187,36 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return rule.GetCondition() + strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + removeClass(rule.Selector.String(), class)
 	}
 }
 
+// removeClass removes the first occurrence of the class from the text of a selector.
+// Other names that merely contain the name of the class are left alone.
+func removeClass(selector, class string) string {
+	token := cascadia.ClassSelector{Class: class}.String()
+	for from := 0; ; {
+		i := strings.Index(selector[from:], token)
+		if i < 0 {
+			return selector
+		}
+		start := from + i
+		end := start + len(token)
+		escapedDot := start > 0 && selector[start-1] == '\\'
+		longerName := end < len(selector) && isNameByte(selector[end])
+		if !escapedDot && !longerName {
+			return selector[:start] + "." + selector[end:]
+		}
+		from = start + 1
+	}
+}
+
+// isNameByte reports whether c continues a name in a selector
+func isNameByte(c byte) bool {
+	return c == '\\' || c == '_' || c == '-' || c >= 0x80 ||
+		'0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
-- 
2.43.0


From ae698cb7c7cff5a3fc9ab66191f28c22377ccc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 14/42] fix: split the class list at any HTML whitespace

Consecutive spaces gave an empty class name in the output, and classes
separated by tabs or line breaks were not merged at all.
---
 merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 0968ff0..6227cbb 100644
--- a/merge.go
+++ b/merge.go
@@ -233,7 +233,7 @@ func (r *Merger) Merge(inClass string) string {
 	}
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.FieldsFunc(inClass, isHTMLSpace)
 	if len(split) < 2 {
 		return inClass
 	}
@@ -328,6 +328,11 @@ func (r *Merger) Merge(inClass string) string {
 	return out
 }
 
+// isHTMLSpace reports whether c separates the classes of a class attribute
+func isHTMLSpace(c rune) bool {
+	return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'
+}
+
 // unique returns a slice with all duplicate elements removed.
 // The sort order of the elements is not preserved
 // unless the elements are already sorted. It does not zero pointers so it can leak.
-- 
2.43.0


From 54de62e2807b44a75b8a67a8491bbc5b8b182e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 15/42] fix: keep both classes when one selector needs them

Merge identified classes by the text of their selector, so of two listed
classes that occur in the same selector (.a.b, .group:hover .item) the earlier
one was dropped although nothing overrides it.
---
 merge.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/merge.go b/merge.go
index 6227cbb..e42142c 100644
--- a/merge.go
+++ b/merge.go
@@ -239,14 +239,13 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
-	// propsToClasses is a map of properties that are shared between classes
+	// propsToClass is a map of properties that are shared between classes
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	propsToClass := make(map[string]string, len(split))
+	importantPropsToClass := make(map[string]string, len(split))
+	customVarsToClass := make(map[string]string, len(split))   // map of custom vars to the class that set them
+	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -255,7 +254,6 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -273,45 +271,42 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToClass[prop] = class
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToClass[prop] = class
 				continue
 			}
 
-			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			// add all classes to the propsToClass map
+			propsToClass[prop] = class
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
+	for _, class := range propsToClass {
 		keepClasses = append(keepClasses, class)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, class := range importantPropsToClass {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
 		keepClasses = append(keepClasses, class)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
+	for custVar, class := range customVarsToClass {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
 				continue
 			}
-			class := selectorToClass[sel]
 			keepClasses = append(keepClasses, class)
 			break
 		}
-- 
2.43.0


From 796e32cdd518cc8d83004fe6211fae9560b8fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 16/42] fix: take the declarations of a rule one by one

An important declaration made every property of its rule important, and
the custom vars of the last declaration counted as those of every
property of the rule.
---
 merge.go | 110 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 60 insertions(+), 50 deletions(-)

diff --git a/merge.go b/merge.go
index e42142c..fbac439 100644
--- a/merge.go
+++ b/merge.go
@@ -112,20 +112,38 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
-	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
-	for _, dec := range rule.Declarations {
-		prop, ok := r.properties[dec.Property]
-		if !ok {
-			// Allowing these through, maybe they shouldn't be but
-			// this allows properties like stroke, fill, etc. to be used
-			// which are not in the mdn official list of props
-			// IMPORTANT: we are relying on this to let custom properties through
-			affectedProps = append(affectedProps, dec.Property)
-		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+// propKey identifies a property in the circumstance in which it is set (pseudo or media)
+type propKey struct {
+	prop string
+	mod  string
+}
+
+// setter is a class that sets a property, and the custom vars it uses to do so
+type setter struct {
+	class string
+	vars  []string
+}
+
+// addSetter makes the class the last one that sets the property
+func addSetter(setters map[propKey]setter, key propKey, class string, vars []string) {
+	s := setters[key]
+	if s.class != class {
+		s = setter{class: class}
+	}
+	s.vars = append(s.vars, vars...)
+	setters[key] = s
+}
+
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		// Allowing these through, maybe they shouldn't be but
+		// this allows properties like stroke, fill, etc. to be used
+		// which are not in the mdn official list of props
+		// IMPORTANT: we are relying on this to let custom properties through
+		return []string{dec.Property}
 	}
-	return unique(affectedProps)
+	return prop.ComputedProps()
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
@@ -240,12 +258,10 @@ func (r *Merger) Merge(inClass string) string {
 
 	keepClasses := make([]string, 0, len(split))
 
-	// propsToClass is a map of properties that are shared between classes
-	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToClass := make(map[string]string, len(split))
-	importantPropsToClass := make(map[string]string, len(split))
-	customVarsToClass := make(map[string]string, len(split))   // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
+	// The last class that sets each property in a circumstance, with the custom vars that it uses to do so
+	setters := make(map[propKey]setter, len(split))
+	importantSetters := make(map[propKey]setter, len(split))
+	customSetters := make(map[propKey]setter, len(split))
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -256,59 +272,53 @@ func (r *Merger) Merge(inClass string) string {
 
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, dec := range rule.Declarations {
 
-			prop = prop + propMod
+			customVars := getCustomVarsInDec(dec)
+			important := importantRegex.MatchString(dec.Value)
 
-			for _, dec := range rule.Declarations {
+			for _, prop := range r.getAffectedProps(dec) {
 
-				if !strings.HasPrefix(prop, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property
-					propsToCustomVars[prop] = customVars
+				key := propKey{prop, propMod}
+
+				// if the property is marked !important, the class also competes with the other important ones
+				if important {
+					addSetter(importantSetters, key, class, customVars)
 				}
 
-				// if the property is marked !important, add the class to the importantProps map
-				if importantRegex.MatchString(dec.Value) {
-					importantPropsToClass[prop] = class
+				// custom props are only kept if they are used
+				if strings.HasPrefix(prop, "--") {
+					addSetter(customSetters, key, class, customVars)
+					continue
 				}
-			}
 
-			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
-				customVarsToClass[prop] = class
-				continue
+				addSetter(setters, key, class, customVars)
 			}
-
-			// add all classes to the propsToClass map
-			propsToClass[prop] = class
 		}
 	}
 
+	usedVars := make([]string, 0, len(split)) // the custom vars used by the classes that are kept
+
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, class := range propsToClass {
-		keepClasses = append(keepClasses, class)
+	for _, s := range setters {
+		keepClasses = append(keepClasses, s.class)
+		usedVars = append(usedVars, s.vars...)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, class := range importantPropsToClass {
+	for _, s := range importantSetters {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		keepClasses = append(keepClasses, class)
+		keepClasses = append(keepClasses, s.class)
+		usedVars = append(usedVars, s.vars...)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, class := range customVarsToClass {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
-				continue
-			}
-			keepClasses = append(keepClasses, class)
-			break
+	for key, s := range customSetters {
+		if slices.Contains(usedVars, key.prop+key.mod) {
+			keepClasses = append(keepClasses, s.class)
 		}
 	}
 
-- 
2.43.0


From f621201595e76b932534c3d3568f3c2cfbd6c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 17/42] fix: keep custom properties used in other circumstances
 or by other custom properties

---
 merge.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index fbac439..a418426 100644
--- a/merge.go
+++ b/merge.go
@@ -315,11 +315,20 @@ func (r *Merger) Merge(inClass string) string {
 		usedVars = append(usedVars, s.vars...)
 	}
 
-	// keep the class that sets the last definition of each custom property if that custom property is actually used
+	// keep the class that sets the last definition of each custom property if that custom property is actually used,
+	// in whichever circumstance it is set and also when it is only used to define another custom property that is used
+	customSettersByName := make(map[string][]setter, len(customSetters))
 	for key, s := range customSetters {
-		if slices.Contains(usedVars, key.prop+key.mod) {
+		customSettersByName[key.prop] = append(customSettersByName[key.prop], s)
+	}
+	for len(usedVars) > 0 {
+		name := usedVars[0]
+		usedVars = usedVars[1:]
+		for _, s := range customSettersByName[name] {
 			keepClasses = append(keepClasses, s.class)
+			usedVars = append(usedVars, s.vars...)
 		}
+		delete(customSettersByName, name)
 	}
 
 	keepClasses = unique(keepClasses)
-- 
2.43.0


From 7a15a40faf32e8a5ee4a8a269e993098f6a36516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 18/42] fix: recognise every spelling of !important, at the end
 of a value only

---
 merge.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index a418426..012e70d 100644
--- a/merge.go
+++ b/merge.go
@@ -146,8 +146,11 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 	return prop.ComputedProps()
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+// matches !important at the end of a css declaration value
+var importantRegex = regexp.MustCompile(`(?is)!(?:\s|/\*.*?\*/)*important(?:\s|/\*.*?\*/)*$`)
+
+// matches custom variables in a css declaration value
+var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 588b2f0548e10b74a7f2e5fd70b1da00819570fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 19/42] fix: recognise every spelling of var() and of custom
 property names

---
 merge.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 012e70d..ed5424b 100644
--- a/merge.go
+++ b/merge.go
@@ -150,7 +150,7 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
 var importantRegex = regexp.MustCompile(`(?is)!(?:\s|/\*.*?\*/)*important(?:\s|/\*.*?\*/)*$`)
 
 // matches custom variables in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)
+var customVarRegex = regexp.MustCompile(`(?is)\bvar\((?:\s|/\*.*?\*/)*(--(?:[^\s,)/]|/[^\s,)*])*)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -322,7 +322,8 @@ func (r *Merger) Merge(inClass string) string {
 	// in whichever circumstance it is set and also when it is only used to define another custom property that is used
 	customSettersByName := make(map[string][]setter, len(customSetters))
 	for key, s := range customSetters {
-		customSettersByName[key.prop] = append(customSettersByName[key.prop], s)
+		name := cascadia.CssUnescape([]byte(key.prop)) // as in the values of declarations
+		customSettersByName[name] = append(customSettersByName[name], s)
 	}
 	for len(usedVars) > 0 {
 		name := usedVars[0]
-- 
2.43.0


From b943a1989704c936de7a2c3761b47e4e5ce57d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 20/42] fix: keep classes whose rule has no declarations

---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index ed5424b..e833cdd 100644
--- a/merge.go
+++ b/merge.go
@@ -242,7 +242,7 @@ func isNameByte(c byte) bool {
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
 // It prioritises the last class in the list for each property.
-// If a class name is not found in the rules, it is kept in the output.
+// If a class name is not found in the rules, or sets nothing, it is kept in the output.
 // Important properties are prioritised over non-important properties.
 // If the cache is not nil, it will store the result of the merge to skip re-calculating the merge later.
 func (r *Merger) Merge(inClass string) string {
@@ -267,7 +267,7 @@ func (r *Merger) Merge(inClass string) string {
 	customSetters := make(map[propKey]setter, len(split))
 	for _, class := range split {
 		rule, ok := r.rules[class]
-		if !ok {
+		if !ok || len(rule.Declarations) == 0 {
 			// log.Println("rule not found for class:", class)
 			keepClasses = append(keepClasses, class)
 			continue
-- 
2.43.0


From 27a374d4e10a31405f14ad975f06c4b31a28b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 21/42] fix: serialize :popover-open under its own name

---
 internal/cascadia/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..7e0d389 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -202,7 +202,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From 88cc57df2721c31aa5ad72c500f8f29dadbdbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 22/42] fix: escape every part of a serialized selector

---
 internal/cascadia/serialize.go | 40 ++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 7e0d389..4c9bda1 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -37,21 +37,33 @@ import (
 
 // implements the reverse operation Sel -> string
 
-var specialCharReplacer *strings.Replacer
-
-func init() {
-	var pairs []string
-	for _, s := range ",!\"#$%&'()*+ -./:;<=>?@[\\]^`{|}~" {
-		pairs = append(pairs, string(s), "\\"+string(s))
+const specialChars = ",!\"#$%&'()*+ -./:;<=>?@[\\]^`{|}~"
+
+// escape escapes an identifier: special CSS chars, and those that only a hex escape can express
+func escape(s string) string {
+	b := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c < ' ' || c == 0x7f || i == 0 && '0' <= c && c <= '9':
+			fmt.Fprintf(&b, `\%x `, c)
+		case strings.IndexByte(specialChars, c) >= 0:
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		default:
+			b.WriteByte(c)
+		}
 	}
-	specialCharReplacer = strings.NewReplacer(pairs...)
+	return b.String()
 }
 
-// espace special CSS char
-func escape(s string) string { return specialCharReplacer.Replace(s) }
+var stringReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\a `, "\f", `\c `, "\r", `\d `)
+
+// quote returns s as a CSS string
+func quote(s string) string { return `"` + stringReplacer.Replace(s) + `"` }
 
 func (c TagSelector) String() string {
-	return c.tag
+	return escape(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -67,7 +79,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +88,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escape(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +108,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +174,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escape(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
-- 
2.43.0


From 453bb1371f44f4d917ee775de4f9e7d205e26063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 23/42] fix: attribute operators with an empty value match
 nothing

---
 internal/cascadia/selector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 9359b9b..8595957 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -291,6 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 
 // returns true if s is a whitespace-separated list that includes val.
 func matchInclude(val string, s string, ignoreCase bool) bool {
+	if val == "" {
+		return false
+	}
 	for s != "" {
 		i := strings.IndexAny(s, " \t\r\n\f")
 		if i == -1 {
@@ -326,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -341,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -356,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From 13c5d99323cb799b18094a5981d500924a4713f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 24/42] fix: correct the longhands of logical border sides and
 of grid

---
 internal/props/gen/properties.json | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..ddf38d6 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "border-block-start-width",
+        "border-block-start-style",
+        "border-block-start-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2543,9 +2543,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2619,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3072,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3196,8 +3196,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
@@ -5442,11 +5442,7 @@
         "grid-template-areas",
         "grid-auto-rows",
         "grid-auto-columns",
-        "grid-auto-flow",
-        "grid-column-gap",
-        "grid-row-gap",
-        "column-gap",
-        "row-gap"
+        "grid-auto-flow"
       ],
       "order": "uniqueOrder",
       "status": "standard",
-- 
2.43.0


From d990fc07bc9a2b822b356617c18689a3c40565ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 25/42] fix: expand shorthands down to their longhands

'border' did not conflict with 'border-width' or 'border-top-width', nor
'background' with 'background-position-x'.
---
 internal/props/gen/properties.json | 47 +++++++++++++++++++++++++-----
 merge.go                           | 19 ++++++++----
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index ddf38d6..eec2918 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -5075,7 +5093,12 @@
       ],
       "initial": "weight style small-caps position ",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-synthesis-position",
+        "font-synthesis-small-caps",
+        "font-synthesis-style",
+        "font-synthesis-weight"
+      ],
       "order": "orderOfAppearance",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5180,7 +5203,15 @@
       ],
       "initial": "normal",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-variant-alternates",
+        "font-variant-caps",
+        "font-variant-east-asian",
+        "font-variant-emoji",
+        "font-variant-ligatures",
+        "font-variant-numeric",
+        "font-variant-position"
+      ],
       "order": "uniqueOrder",
       "alsoAppliesTo": [
         "::first-letter",
diff --git a/merge.go b/merge.go
index e833cdd..db33928 100644
--- a/merge.go
+++ b/merge.go
@@ -134,16 +134,25 @@ func addSetter(setters map[propKey]setter, key propKey, class string, vars []str
 	setters[key] = s
 }
 
-func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
-	prop, ok := r.properties[dec.Property]
+func (r *Merger) getAffectedProps(name string) []string {
+	prop, ok := r.properties[name]
 	if !ok {
 		// Allowing these through, maybe they shouldn't be but
 		// this allows properties like stroke, fill, etc. to be used
 		// which are not in the mdn official list of props
 		// IMPORTANT: we are relying on this to let custom properties through
-		return []string{dec.Property}
+		return []string{name}
 	}
-	return prop.ComputedProps()
+	var affectedProps []string
+	for _, computed := range prop.ComputedProps() {
+		if computed == name {
+			affectedProps = append(affectedProps, name)
+			continue
+		}
+		// the longhands of a shorthand may be shorthands, too
+		affectedProps = append(affectedProps, r.getAffectedProps(computed)...)
+	}
+	return affectedProps
 }
 
 // matches !important at the end of a css declaration value
@@ -280,7 +289,7 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, prop := range r.getAffectedProps(dec) {
+			for _, prop := range r.getAffectedProps(dec.Property) {
 
 				key := propKey{prop, propMod}
 
-- 
2.43.0


From 113ff569aca6b407d0b05133cbc062b580e65826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 26/42] fix: leave the class out of the circumstance of
 :is(.dark .x)::before

---
 internal/cascadia/rules.go |  5 +++++
 merge.go                   | 16 ++++------------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 0a7cea9..53b5cfc 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -51,6 +51,11 @@ func (r CssRule) GetCondition() string {
 	return r.condition
 }
 
+// AtRuleCondition returns the condition of the at-rules that enclose the rule
+func (r CssRule) AtRuleCondition() string {
+	return r.condition
+}
+
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
diff --git a/merge.go b/merge.go
index db33928..5d8e1db 100644
--- a/merge.go
+++ b/merge.go
@@ -180,19 +180,11 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 // with a class and one or more pseudo element or class.
 // It returns true if the selector is a class with pseudo elements or classes.
 func classWithPseudo(sel cascadia.Sel) bool {
-	_, ok := sel.(cascadia.CompoundSelector)
-	if !ok {
+	compound, ok := sel.(cascadia.CompoundSelector)
+	if !ok || len(compound.Selectors()) == 0 || !isClass(compound.Selectors()[0]) {
 		return false
 	}
-	selectors := walk(sel)
-	for i, s := range selectors {
-		if i == 0 {
-			_, firstIsClass := s.(cascadia.ClassSelector)
-			if !firstIsClass {
-				return false
-			}
-			continue
-		}
+	for _, s := range walk(sel)[1:] {
 		ok := cascadia.IsPseudoElement(s)
 		if !ok {
 			return false
@@ -217,7 +209,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
-		return rule.GetCondition() + removeClass(rule.Selector.String(), class)
+		return rule.AtRuleCondition() + removeClass(rule.Selector.String(), class)
 	}
 }
 
-- 
2.43.0


From 3a2b1d0e5a934101fcb6c6b76efc2a8c96998097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 27/42] fix: deeply nested selectors overflowed the stack

The stack overflow is fatal: a stylesheet with a million nested :not( ended the process.
---
 internal/cascadia/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..43a4ffa 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -46,8 +46,14 @@ type parser struct {
 	// if `false`, parsing a pseudo-element
 	// returns an error.
 	acceptPseudoElements bool
+
+	nesting int // number of enclosing :not(), :has(), :is() and :where()
 }
 
+// maxNesting limits the depth of selectors within selectors. Parsing, printing and
+// matching them is recursive, and a stack overflow cannot be recovered from.
+const maxNesting = 200
+
 // parseEscape parses a backslash escape.
 func (p *parser) parseEscape() (result string, err error) {
 	if len(p.s) < p.i+2 || p.s[p.i] != '\\' {
@@ -470,6 +476,7 @@ var (
 	errExpectedParenthesis        = errors.New("expected '(' but didn't find it")
 	errExpectedClosingParenthesis = errors.New("expected ')' but didn't find it")
 	errUnmatchedParenthesis       = errors.New("unmatched '('")
+	errNesting                    = errors.New("selectors are nested too deeply")
 )
 
 // parsePseudoclassSelector parses a pseudoclass selector like :not(p) or a pseudo-element
@@ -515,7 +522,12 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		if !p.consumeParenthesis() {
 			return out, "", errExpectedParenthesis
 		}
+		if p.nesting == maxNesting {
+			return out, "", errNesting
+		}
+		p.nesting++
 		sel, parseErr := p.parseSelectorGroup()
+		p.nesting--
 		if parseErr != nil {
 			return out, "", parseErr
 		}
-- 
2.43.0


From 9373392ac9400be76fb1b5825a2d4a9c8848631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 28/42] fix: the i flag of an attribute selector ignores the
 case of ASCII letters only

---
 internal/cascadia/selector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8595957..1f03da2 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -256,7 +256,7 @@ func (t AttrSelector) Match(n *html.Node) bool {
 // the real attribute is the attribute value found in the code parsed
 func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bool {
 	if ignoreCase {
-		return strings.EqualFold(userAttr, realAttr)
+		return toLowerASCII(userAttr) == toLowerASCII(realAttr)
 	}
 	return userAttr == realAttr
 
@@ -333,7 +333,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasPrefix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasPrefix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasPrefix(s, val)
 		})
@@ -348,7 +348,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasSuffix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasSuffix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasSuffix(s, val)
 		})
@@ -363,7 +363,7 @@ func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) boo
 				return false
 			}
 			if ignoreCase {
-				return strings.Contains(strings.ToLower(s), strings.ToLower(val))
+				return strings.Contains(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.Contains(s, val)
 		})
-- 
2.43.0


From 738cc9ed3e03a662b2233e914ec14a5e3ad4e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 29/42] fix: only HTML whitespace leaves an element empty

---
 internal/cascadia/pseudo_classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 96522ea..756c699 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -425,7 +425,7 @@ func (s EmptyElementPseudoClassSelector) Match(n *html.Node) bool {
 		case html.ElementNode:
 			return false
 		case html.TextNode:
-			if strings.TrimSpace(nodeText(c)) == "" {
+			if strings.Trim(nodeText(c), " \t\r\n\f") == "" {
 				continue
 			} else {
 				return false
-- 
2.43.0


From f1a22745279b7a56409b58c97ff32ac6988f202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 30/42] fix: :has(a b) matched with an a outside of the element

---
 internal/cascadia/pseudo_classes.go | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 756c699..4424141 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -136,7 +136,11 @@ func (s RelativePseudoClassSelector) Match(n *html.Node) bool {
 		return !s.match.Match(n)
 	case "has":
 		//  matches elements with any descendant that matches a.
-		return hasDescendantMatch(n, s.match)
+		relative := make(SelectorGroup, len(s.match))
+		for i, sel := range s.match {
+			relative[i] = below(sel, n)
+		}
+		return hasDescendantMatch(n, relative)
 	case "haschild":
 		// matches elements with a child that matches a.
 		return hasChildMatch(n, s.match)
@@ -145,6 +149,32 @@ func (s RelativePseudoClassSelector) Match(n *html.Node) bool {
 	}
 }
 
+// below returns sel restricted to the descendants of n: its leftmost compound must match one.
+func below(sel Sel, n *html.Node) Sel {
+	if c, ok := sel.(CombinedSelector); ok {
+		c.first = below(c.first, n)
+		return c
+	}
+	return belowSelector{Sel: sel, anchor: n}
+}
+
+type belowSelector struct {
+	Sel
+	anchor *html.Node
+}
+
+func (s belowSelector) Match(n *html.Node) bool {
+	if !s.Sel.Match(n) {
+		return false
+	}
+	for p := n.Parent; p != nil; p = p.Parent {
+		if p == s.anchor {
+			return true
+		}
+	}
+	return false
+}
+
 // hasChildMatch returns whether n has any child that matches a.
 func hasChildMatch(n *html.Node, a Matcher) bool {
 	for c := n.FirstChild; c != nil; c = c.NextSibling {
-- 
2.43.0


From 014479f861e02d488679dbfd55bf509937858221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:16 +0000
Subject: [PATCH 31/42] fix: options and nested fieldsets in a disabled
 fieldset or optgroup had the wrong state

---
 internal/cascadia/pseudo_classes.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 4424141..a528659 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -520,9 +520,11 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 	switch n.DataAtom {
 	case atom.A, atom.Area, atom.Link:
 		return hasAttr(n, "href")
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return !hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return !hasAttr(n, "disabled") && !inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return !hasAttr(n, "disabled") && !inDisabledFieldset(n)
 	}
 	return false
@@ -537,9 +539,11 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 		return false
 	}
 	switch n.DataAtom {
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return hasAttr(n, "disabled") || inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return hasAttr(n, "disabled") || inDisabledFieldset(n)
 	}
 	return false
@@ -554,6 +558,10 @@ func hasLegendInPreviousSiblings(n *html.Node) bool {
 	return false
 }
 
+func inDisabledOptgroup(n *html.Node) bool {
+	return n.Parent != nil && n.Parent.DataAtom == atom.Optgroup && hasAttr(n.Parent, "disabled")
+}
+
 func inDisabledFieldset(n *html.Node) bool {
 	if n.Parent == nil {
 		return false
-- 
2.43.0


From 9f8bcbca281cbc4ad6b0c60e919c9cb542b86c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 32/42] fix: ::-webkit-scrollbar and the like counted as
 pseudo-classes

---
 internal/cascadia/parser.go         | 6 +++---
 internal/cascadia/pseudo_classes.go | 6 +++++-
 internal/cascadia/serialize.go      | 3 +++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 43a4ffa..551c5c9 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -624,11 +624,11 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 	case "moz-placeholder":
 		out = abstractPseudoClass{name: name}
 	case `-moz-focusring`, `-moz-placeholder`, "focus-within", "focus-visible", "fullscreen", "modal", "picture-in-picture", "autofill":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 	case "host", "-moz-ui-invalid", "-webkit-outer-spin-button", "-webkit-search-decoration", "-webkit-file-upload-button":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 	case "-webkit-scrollbar", "-webkit-scrollbar-button", "-webkit-scrollbar-thumb", "-webkit-scrollbar-track", "-moz-read-only":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 
 	case "lang":
 		if !p.consumeParenthesis() {
diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index a528659..835b113 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -43,7 +43,8 @@ import (
 // which share the implementation of PseudoElement() and Specificity()
 
 type abstractPseudoClass struct {
-	name string
+	name    string
+	element bool // a pseudo-element of a browser, written with two colons
 }
 
 func (s abstractPseudoClass) Match(n *html.Node) bool {
@@ -51,6 +52,9 @@ func (s abstractPseudoClass) Match(n *html.Node) bool {
 }
 
 func (s abstractPseudoClass) Specificity() Specificity {
+	if s.element {
+		return Specificity{0, 0, 1}
+	}
 	return Specificity{0, 1, 0}
 }
 
diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 4c9bda1..11cbddb 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -218,6 +218,9 @@ func (c PopoverPseudoClassSelector) String() string {
 }
 
 func (c abstractPseudoClass) String() string {
+	if c.element {
+		return fmt.Sprintf("::%s", c.name)
+	}
 	return fmt.Sprintf(":%s", c.name)
 }
 
-- 
2.43.0


From 4b9f7de23f3b5c4bcc5028688a9dbd765c0ff73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 33/42] fix: .x:hover::-webkit-scrollbar competed with
 .y::-webkit-scrollbar:hover

---
 internal/cascadia/selector.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 1f03da2..05a690c 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -439,10 +439,17 @@ func (c CompoundSelector) PseudoElementsString() string {
 	// sorting here because combinations are semantically the same
 	// regardless of order (e.g., focus:hover and hover:focus)
 	strs := make([]string, 0, len(elements))
+	start := 0
 	for _, sel := range elements {
-		strs = append(strs, sel.String())
+		str := sel.String()
+		strs = append(strs, str)
+		if strings.HasPrefix(str, "::") {
+			// what follows a pseudo-element is about the pseudo-element
+			slices.Sort[[]string](strs[start : len(strs)-1])
+			start = len(strs)
+		}
 	}
-	slices.Sort[[]string](strs)
+	slices.Sort[[]string](strs[start:])
 	if c.pseudoElement != "" {
 		strs = append(strs, "::"+c.pseudoElement)
 	}
-- 
2.43.0


From 712a4d2e0db368efba10c80588be7a3bab7344f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 34/42] fix: the escape \0 made a class name with a NUL
 character

---
 internal/cascadia/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 551c5c9..b8570cc 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -36,6 +36,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // a parser for CSS selectors
@@ -72,6 +73,9 @@ func (p *parser) parseEscape() (result string, err error) {
 			// empty
 		}
 		v, _ := strconv.ParseUint(p.s[start:i], 16, 64)
+		if v == 0 {
+			v = utf8.RuneError // as for all numbers that are no characters
+		}
 		if len(p.s) > i {
 			switch p.s[i] {
 			case '\r':
-- 
2.43.0


From 52e5ec865d3bb058ddcd8d727b02561638f5db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 35/42] fix: identifiers such as --1 were refused

---
 internal/cascadia/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index b8570cc..267cdff 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -144,11 +144,15 @@ func (p *parser) parseIdentifier() (result string, err error) {
 		numPrefix++
 	}
 
+	if numPrefix >= 2 && (len(p.s) <= p.i || !nameChar(p.s[p.i]) && p.s[p.i] != '\\') {
+		return strings.Repeat(string(prefix), numPrefix), nil
+	}
+
 	if len(p.s) <= p.i {
 		return "", errors.New("expected identifier, found EOF instead")
 	}
 
-	if c := p.s[p.i]; !(nameStart(c) || c == '\\') {
+	if c := p.s[p.i]; numPrefix < 2 && !(nameStart(c) || c == '\\') {
 		return "", fmt.Errorf("expected identifier, found %c instead", c)
 	}
 
-- 
2.43.0


From ceb410a30b74c550f4e221faeeef8f36ac2278cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 36/42] fix: a CRLF after a hexadecimal escape split the class
 name

---
 internal/cascadia/rules.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 53b5cfc..4f211bd 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -174,12 +174,28 @@ func normalizeWhitespace(s string) string {
 	return strings.Join(strings.Fields(s), " ")
 }
 
+// readAll returns a copy of the stylesheet with every line end as a single character:
+// the css parser takes only one of a CRLF for the end of an escape (".a\3A\r\nb").
+func readAll(r io.Reader) ([]byte, error) {
+	var source []byte
+	if buffer, ok := r.(interface{ Bytes() []byte }); ok {
+		source = buffer.Bytes()
+	} else if r != nil {
+		var err error
+		if source, err = io.ReadAll(r); err != nil {
+			return nil, err
+		}
+	}
+	return bytes.ReplaceAll(source, []byte("\r\n"), []byte("\n")), nil
+}
+
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-	input := parse.NewInput(r)
-	defer input.Restore() // the input borrows the bytes of a bytes.Buffer and writes one past their end
-	p := css.NewParser(input, inline)
+	source, err := readAll(r)
+	if err != nil {
+		return nil, fmt.Errorf("encountered error reading CSS: %v", err)
+	}
+	p := css.NewParser(parse.NewInputBytes(source), inline)
 	rules := make([]CssRule, 0)
-	var err error
 	var currentRule CssRule
 	var selectors selectorList    // the selectors of the next ruleset
 	var currentSelectors []Sel    // the selectors of the current ruleset
-- 
2.43.0


From 9588798254f35727548d6a87bf3050ffb035396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 37/42] fix: text of strings and after escaped backslashes in
 circumstances

---
 merge.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/merge.go b/merge.go
index 5d8e1db..a00ce8b 100644
--- a/merge.go
+++ b/merge.go
@@ -214,23 +214,22 @@ func propModifier(class string, rule cascadia.CssRule) string {
 }
 
 // removeClass removes the first occurrence of the class from the text of a selector.
-// Other names that merely contain the name of the class are left alone.
+// Other names that merely contain the name of the class are left alone, as are strings.
 func removeClass(selector, class string) string {
 	token := cascadia.ClassSelector{Class: class}.String()
-	for from := 0; ; {
-		i := strings.Index(selector[from:], token)
-		if i < 0 {
-			return selector
+	quoted := false
+	for i := 0; i < len(selector); i++ {
+		rest := selector[i:]
+		switch {
+		case rest[0] == '\\':
+			i++ // the escaped character
+		case rest[0] == '"':
+			quoted = !quoted
+		case !quoted && strings.HasPrefix(rest, token) && (len(rest) == len(token) || !isNameByte(rest[len(token)])):
+			return selector[:i] + "." + rest[len(token):]
 		}
-		start := from + i
-		end := start + len(token)
-		escapedDot := start > 0 && selector[start-1] == '\\'
-		longerName := end < len(selector) && isNameByte(selector[end])
-		if !escapedDot && !longerName {
-			return selector[:start] + "." + selector[end:]
-		}
-		from = start + 1
 	}
+	return selector
 }
 
 // isNameByte reports whether c continues a name in a selector
-- 
2.43.0


From ffcaeec8d00b4944692415cda68f62f106e261cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 38/42] fix: escaped names of custom properties, strings and
 longer function names in var()

The class of --x\,y was removed though var(--x\,y) used it; "var(--x)" in a
string and my-var(--x) counted as uses.
---
 internal/cascadia/rules.go | 22 ++++++++++++++++++++++
 merge.go                   | 18 ++++++++++--------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 4f211bd..329a373 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -71,6 +71,15 @@ func (r CssRule) ToCssFormat() string {
 type CssDeclaration struct {
 	Property string // Property is the property for the declaration (e.g., "color")
 	Value    string // Value is the value for the declaration (e.g., "red")
+	escaped  string // the value with its escapes, if it has any
+}
+
+// Text returns the value of the declaration with its escapes
+func (d CssDeclaration) Text() string {
+	if d.escaped != "" {
+		return d.escaped
+	}
+	return d.Value
 }
 
 // selectorList collects the selectors of a ruleset (".a, .b"). The css parser splits the
@@ -127,6 +136,16 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	return string(data), ruleBuilder.String()
 }
 
+// Unescape returns the name that an identifier stands for
+func Unescape(identifier string) string {
+	p := &parser{s: identifier}
+	name, err := p.parseName()
+	if err != nil || p.i < len(identifier) {
+		return identifier
+	}
+	return name
+}
+
 func CssUnescape(b []byte) string {
 
 	var buf bytes.Buffer
@@ -287,5 +306,8 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 	}
 	s := normalizeWhitespace(vals.String())
 	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	if strings.ContainsRune(s, '\\') {
+		declaration.escaped = s
+	}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index a00ce8b..b00a734 100644
--- a/merge.go
+++ b/merge.go
@@ -158,20 +158,23 @@ func (r *Merger) getAffectedProps(name string) []string {
 // matches !important at the end of a css declaration value
 var importantRegex = regexp.MustCompile(`(?is)!(?:\s|/\*.*?\*/)*important(?:\s|/\*.*?\*/)*$`)
 
-// matches custom variables in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?is)\bvar\((?:\s|/\*.*?\*/)*(--(?:[^\s,)/]|/[^\s,)*])*)`)
+// matches custom variables in a css declaration value, and what only looks as if it contained one:
+// strings, comments, functions with longer names and escapes
+var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|/\*.*?\*/` +
+	`|var\((?:\s|/\*.*?\*/)*(--(?:[-\w]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)*)` +
+	`|(?:[-\w]|[^\x00-\x7f]|\\.)+var\(|\\.`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
-	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
+	matches := customVarRegex.FindAllStringSubmatch(dec.Text(), -1)
 	if matches == nil {
 		return nil
 	}
 	vars := make([]string, 0, len(matches))
 	for _, match := range matches {
-		if len(match) < 2 {
+		if len(match) < 2 || match[1] == "" {
 			continue
 		}
-		vars = append(vars, match[1])
+		vars = append(vars, cascadia.Unescape(match[1]))
 	}
 	return vars
 }
@@ -280,7 +283,7 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, prop := range r.getAffectedProps(dec.Property) {
+			for _, prop := range r.getAffectedProps(cascadia.Unescape(dec.Property)) {
 
 				key := propKey{prop, propMod}
 
@@ -322,8 +325,7 @@ func (r *Merger) Merge(inClass string) string {
 	// in whichever circumstance it is set and also when it is only used to define another custom property that is used
 	customSettersByName := make(map[string][]setter, len(customSetters))
 	for key, s := range customSetters {
-		name := cascadia.CssUnescape([]byte(key.prop)) // as in the values of declarations
-		customSettersByName[name] = append(customSettersByName[name], s)
+		customSettersByName[key.prop] = append(customSettersByName[key.prop], s)
 	}
 	for len(usedVars) > 0 {
 		name := usedVars[0]
-- 
2.43.0


From 96b06ce3108dffe194086ba78ad7052a9823a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 39/42] fix: an escaped exclamation mark made a declaration
 important

---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index b00a734..d96bc2a 100644
--- a/merge.go
+++ b/merge.go
@@ -156,7 +156,7 @@ func (r *Merger) getAffectedProps(name string) []string {
 }
 
 // matches !important at the end of a css declaration value
-var importantRegex = regexp.MustCompile(`(?is)!(?:\s|/\*.*?\*/)*important(?:\s|/\*.*?\*/)*$`)
+var importantRegex = regexp.MustCompile(`(?is)^(?:[^\\]|\\.)*!(?:\s|/\*.*?\*/)*important(?:\s|/\*.*?\*/)*$`)
 
 // matches custom variables in a css declaration value, and what only looks as if it contained one:
 // strings, comments, functions with longer names and escapes
@@ -281,7 +281,7 @@ func (r *Merger) Merge(inClass string) string {
 		for _, dec := range rule.Declarations {
 
 			customVars := getCustomVarsInDec(dec)
-			important := importantRegex.MatchString(dec.Value)
+			important := strings.Contains(dec.Value, "!") && importantRegex.MatchString(dec.Text())
 
 			for _, prop := range r.getAffectedProps(cascadia.Unescape(dec.Property)) {
 
-- 
2.43.0


From 0c04201024b2c2d3b2100bccb95d4519841846a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 40/42] fix: ToCssFormat lost the escapes of values

---
 internal/cascadia/rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 329a373..361bb2c 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -59,7 +59,7 @@ func (r CssRule) AtRuleCondition() string {
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
-		dec.WriteString(fmt.Sprintf("%s: %s;", d.Property, d.Value))
+		dec.WriteString(fmt.Sprintf("%s: %s;", d.Property, d.Text()))
 		if i < len(r.Declarations)-1 {
 			dec.WriteByte(' ')
 		}
-- 
2.43.0


From b2a73b5ebc1051ed25c4305437b8ec4bff288328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 41/42] fix: the flag of [lang=en i] became a part of the value

---
 internal/cascadia/rules.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 361bb2c..c2a5a1d 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -93,8 +93,13 @@ type selectorList struct {
 func (l *selectorList) add(tokens []css.Token) {
 	text := strings.Builder{}
 	nested := l.depth > 0
-	for _, val := range tokens {
+	for i, val := range tokens {
 		switch val.TokenType {
+		case css.IdentToken:
+			// the css parser drops the space of "[lang=en i]"
+			if i > 0 && tokens[i-1].TokenType == css.IdentToken {
+				text.WriteByte(' ')
+			}
 		case css.FunctionToken, css.LeftParenthesisToken:
 			l.depth++
 		case css.RightParenthesisToken:
-- 
2.43.0


From 99023de9597740fc2dbd47471af96a1f3af6f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 42/42] fix: rules nested in a rule that is not supported ended
 its being skipped

---
 internal/cascadia/rules.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index c2a5a1d..dcd15c5 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -225,10 +225,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	var currentSelectors []Sel    // the selectors of the current ruleset
 	var atRuleConditions []string // conditions of the enclosing at-rules, outermost first
 	ignore := 0                   // number of open at-rules, counted from the outermost ignored one
-	ruleSetErr := false
+	skipped := 0                  // number of open rulesets, counted from the outermost one that is not supported
 	for {
 		gt, _, data := p.Next()
-		if gt == css.ErrorGrammar && (ignore > 0 || ruleSetErr) {
+		if gt == css.ErrorGrammar && (ignore > 0 || skipped > 0) {
 			if !p.HasParseError() {
 				// The input ended, or cannot be read, inside a block that is being skipped:
 				// after some parse errors the parser does not report the end of that block.
@@ -247,10 +247,14 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
+		if skipped > 0 {
+			switch gt {
+			case css.BeginRulesetGrammar:
+				skipped++
+			case css.EndRulesetGrammar:
+				skipped--
+			}
 			continue
-		} else if ruleSetErr && gt == css.EndRulesetGrammar {
-			ruleSetErr = false
 		}
 
 		switch gt {
@@ -284,7 +288,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			currentSelectors = selectors.parse()
 			selectors = selectorList{}
 			if len(currentSelectors) == 0 {
-				ruleSetErr = true
+				skipped = 1
 				continue
 			}
 		case css.QualifiedRuleGrammar:
-- 
2.43.0

