import json
P=[]
def add(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="merge.go"; R="internal/cascadia/rules.go"; PA="internal/cascadia/parser.go"; SE="internal/cascadia/selector.go"; PC="internal/cascadia/pseudo_classes.go"; SR="internal/cascadia/serialize.go"; SP="internal/cascadia/specificity.go"; PR="internal/props/properties.go"; PJ="internal/props/gen/properties.json"; CA="cache.go"
EX="TestMerge fixes about two hundred hand-picked lists of two to four classes of one Tailwind stylesheet"
add("C01","Merging loses no style",
"For every stylesheet and every class list, the last class of the list that sets a CSS property in a circumstance is in the result of Merge, and so is the last class that sets it there with !important. A class is only removed when each ordinary property it sets is set again, in the same circumstance, by a later class of the list (and each property it sets !important is set !important again by a later one).",
["inputs","programs"],"all stylesheets and class lists: any number of classes, repeated classes, several declarations per rule, any mix of shorthands, longhands, !important and circumstances",
EX+"; a style can be lost by the interaction of several declarations, classes and circumstances that no listed case combines.",
[M,R,PJ],[("last setter per property and circumstance","merge.go Merge, addSetter"),("affected properties of a declaration","merge.go getAffectedProps"),("circumstance of a class","merge.go propModifier")],["return value of Merge"],
[("rules","the rule that defines each class","merge.go Merger.rules")])
add("C02","Overridden classes are removed",
"For every stylesheet and every class list, a class whose rule sets only ordinary properties is absent from the result of Merge when each property it sets is set again in the same circumstance by a later class of the list, and each it sets !important is set !important again by a later one. Being defined earlier or later in the stylesheet makes no difference: only the order in the class list counts.",
["inputs","programs"],"all stylesheets and class lists, of any length and with any overlap between the properties of the classes",
EX+"; whether a class is overridden by several later ones together is a question over all combinations.",
[M,PJ],[("winner per property key","merge.go Merge"),("shorthand expansion","merge.go getAffectedProps")],["return value of Merge"])
add("C03","Classes compete only within the same circumstance",
"A class removes another only if both apply in the same circumstance: the same set of enclosing @media and @supports conditions (in whatever nesting order), the same pseudo-classes (in whatever order), the same pseudo-element, and, when the selector has further parts, the same selector apart from the class itself. Within the same circumstance they do compete; two different classes that one selector needs both stay.",
["inputs","programs"],"all combinations of nested conditions, pseudo-classes, pseudo-elements, combinators, attribute, tag and id parts, :is()/:where()/:not() and class positions in the selectors of two or more classes of the list",
"The tests pair a few Tailwind variants (hover, focus, dark, [&>*]); the circumstances of two rules can coincide or differ in unboundedly many ways, and names may contain one another.",
[M,R,SE,PC,SR],[("circumstance of a class","merge.go propModifier, removeClass, classWithPseudo"),("conditions of nested at-rules","rules.go ExtractRules, joinConditions, GetCondition"),("order-insensitive pseudo-classes","selector.go PseudoElementsString")],["return value of Merge"])
add("C04","!important wins whatever the order",
"A class that sets a property with !important stays in the result unless a later class of the list sets the same property in the same circumstance with !important, too. A declaration is important exactly if its value ends with '!' and 'important' (in any case, with any whitespace or comments between and around them), and importance concerns only the property of that declaration, not the other properties of the rule.",
["inputs","programs"],"all rules mixing important and ordinary declarations of ordinary, shorthand and custom properties, all spellings of the flag, all class lists",
"TestMerge has a handful of lists with one important utility per class; rules with several declarations, other spellings and values that merely contain the word are not sampled.",
[M],[("importance of a declaration","merge.go importantRegex"),("last important setter","merge.go Merge importantSetters")],["return value of Merge"])
add("C05","Custom properties are kept exactly when used",
"A class that is the last of the list to set a custom property in its circumstance stays if the property is used, through var(), by a declaration of a class that stays for the property of that declaration, or by one that defines a custom property which is itself used so. The use may be in another circumstance than the definition, in a fallback, or several definitions away, with var in any case and whitespace or comments around the name; after the two dashes the name may contain any characters, escaped where CSS requires it. A class that sets only custom properties, none of them !important, stays for no other reason.",
["inputs","programs"],"all graphs of custom property definitions and uses over classes and circumstances, including chains, cycles, shared names, fallbacks and names with escapes",
"TestMerge samples the ring/shadow utilities only; reachability in a graph of definitions is a property of all graphs.",
[M],[("uses of custom properties","merge.go getCustomVarsInDec, customVarRegex"),("closure over used definitions","merge.go Merge usedVars loop")],["return value of Merge"])
add("C06","A shorthand covers exactly its longhands",
"For every CSS property of the property table, a class that sets it overrides an earlier class exactly if it covers everything the earlier one sets: a shorthand covers the properties of the table it is made up of, at any depth, and itself; a longhand covers only itself; a property the table does not know covers only itself. So a shorthand that comes later removes its longhands, and a longhand that comes later never removes the shorthand.",
["inputs"],"all ordered pairs of the 551 properties of the table (and unknown ones), and all sets of longhands against a shorthand",
"TestMerge samples margin, padding, inset and overflow, TestUnMarshalPropsShortHands three properties; the table has 551 properties and 300,000 ordered pairs.",
[PJ,PR,M],[("property table","internal/props/gen/properties.json"),("table loading","properties.go GetProperties, computedProps"),("expansion","merge.go getAffectedProps")],["return value of Merge"])
add("C07","The result is a well-formed part of the list",
"The result of Merge contains only classes of the list, each at most once, separated by single spaces, and always every class the stylesheets do not define. With keepSort they stand in the order of their last occurrences in the list; a list of fewer than two classes is returned unchanged. Classes are separated by HTML whitespace (space, tab, LF, FF, CR) and by nothing else.",
["inputs"],"all class lists: repetitions, every kind of whitespace between and around the classes, classes with arbitrary characters, known and unknown classes mixed",
"Tests use lists separated by single spaces, almost without repetitions or unknown classes.",
[M],[("splitting","merge.go Merge FieldsFunc"),("sortSubset and unique","merge.go sortSubset, unique")],["return value of Merge"])
add("C08","Merging is deterministic and idempotent",
"For the same stylesheets and class list every call of Merge on every Merger with the same keepSort setting returns the same string, whatever was merged before, and keepSort changes only the order of the classes, not which are kept. With keepSort, merging a result again returns it unchanged.",
["inputs","histories"],"all stylesheets, class lists and preceding calls; the random map order of the runtime included",
"Tests call Merge once per list, with keepSort on; map iteration order differs from run to run.",
[M],[("winner maps and deduplication","merge.go Merge, unique"),("order","merge.go sortSubset")],["return value of Merge"])
add("C09","Merging in stages gives the same result",
"With keepSort and rules without custom properties, merging a list after some prefix of it has been replaced by its own merged form gives the same result as merging the whole list at once. Components can therefore merge their defaults first and the caller's classes later.",
["inputs","histories"],"all stylesheets without custom properties, all class lists and all ways to split them in stages",
"No test merges a merged list; the law quantifies over every split of every list.",
[M],[("winners only depend on later classes","merge.go Merge")],["return values of Merge"])
add("C10","A cache never changes the result",
"For every history of AddRules (successful or failed) and Merge calls, Merge returns the same with any correct cache (the built-in one, one that forgets entries at any moment, none at all) as it would compute afresh from the rules added so far. After AddRules has returned, no result computed from the earlier rules is ever returned, and results for one list are never returned for another.",
["histories","inputs"],"all call histories and all cache behaviours that satisfy the Cache contract, including eviction at any time",
"Only a benchmark uses a cache, without changing the rules afterwards.",
[M,CA],[("lookup, store","merge.go Merge"),("invalidation","merge.go AddRules")],["Merge, AddRules, calls on the Cache"],
[("cache","results by class list","merge.go Merger.cache")])
add("C11","Later stylesheets extend and override earlier ones",
"After any history of AddRules calls, each class is defined by the last rule for it in the concatenation of all stylesheets that were added successfully, whatever the way the rules were spread over calls. Adding rules for some classes leaves the rules of all others as they were.",
["histories","inputs"],"all sequences of stylesheets, with classes defined once, several times, within and across calls, and with Merge calls in between",
"Tests add a single stylesheet per Merger.",
[M,R],[("registration","merge.go AddRules"),("rule extraction order","rules.go ExtractRules")],["Rules, Merge"],
[("rules","the rule that defines each class","merge.go Merger.rules")])
add("C12","A failed AddRules changes nothing",
"If the reader fails at any point, or the stylesheet cannot be parsed (because of a declaration without a colon, or a closing brace or bracket that nothing opened, outside of skipped parts), AddRules returns a non-nil error and the rules, and so the results of Merge, are as before the call; otherwise it returns nil and all rules of the stylesheet are in effect. The reader may deliver its data in pieces of any size, with or without data next to its final error; the data of the caller is not modified.",
["fault_sequences","inputs"],"reader failures at every byte and with every way of reporting them, malformed stylesheets that fail after any number of good rules, all chunkings",
"Tests only read complete, valid stylesheets from memory; TestExtractRules does not check for partial effects.",
[M,R],[("error propagation before registration","merge.go AddRules"),("read errors and buffer restore","rules.go ExtractRules")],["return value of AddRules, Rules, Merge, the caller's buffer"])
add("C13","AddRules copes with any input",
"For every sequence of bytes as a stylesheet, AddRules returns (with or without an error): it does not panic and does not run forever, and neither does Merge for any class list afterwards. The Merger stays usable: a good stylesheet added next takes effect.",
["inputs"],"all byte strings: unbalanced braces, brackets, quotes and comments, truncation at any byte, stray tokens, at-rules without or with odd preludes, invalid UTF-8",
"Tests feed well-formed stylesheets and a single unbalanced one; the inputs that make a parser loop or panic are found between those.",
[R,PA,M],[("grammar loop and skipping","rules.go ExtractRules"),("selector parser","parser.go")],["AddRules, Merge"])
add("C14","Unsupported parts of a stylesheet do no harm",
"Rules whose selector is not supported and at-rules other than @media and @supports (with all their content, at any nesting) have no effect at all: the classes that occur only there count as unknown and are kept. All other rules, before, after and around them, and the supported selectors of the same list, are registered as if the unsupported part were not there.",
["inputs","programs"],"all positions of unsupported selectors and at-rules (statements and blocks, empty or nested) among supported rules and in selector lists",
"One test case has a @keyframes block; positions and nesting are unbounded.",
[R],[("skipping","rules.go ExtractRules ignore, ruleSetErr"),("selector lists","rules.go selectorList")],["Rules, Merge"])
add("C15","Concurrent use is safe and never stale",
"Merge and AddRules may be called from any number of goroutines on one Merger: there is no data race, every call returns, and each Merge returns what it would at some moment between its start and its end. A Merge that starts after an AddRules has returned sees its rules, even if other Merges were running, and storing results in the cache, meanwhile.",
["schedules","histories"],"all interleavings of any number of concurrent Merge and AddRules calls, with and without a cache, at every cache access and read of the stylesheet",
"No test is concurrent.",
[M,CA],[("read-write lock","merge.go Merger.mu"),("cache filled under the lock, cleared under the exclusive lock","merge.go Merge, AddRules")],["call and return of Merge and AddRules, calls on the Cache, reads of the stylesheet"],
[("mu","AddRules exclusive, Merge shared","merge.go Merger.mu")])
add("C16","The built-in cache is a linearizable map",
"Used from any number of goroutines, the built-in cache behaves like one map that executes Get, Set and Clear one after another, each at some moment during its call, without data races. Get returns the value of the last Set of exactly that key since the last Clear, or reports that there is none.",
["schedules","histories","inputs"],"all concurrent histories of Get, Set and Clear over any keys (the empty one included) and values",
"TestMapCache_* make a few sequential calls.",
[CA],[("sync.Map replaced under a lock","cache.go")],["return values of Get"])
add("C17","Class names are understood under every CSS escape",
"A class selector defines the class whose name is the CSS-unescaped text of the selector, however it is escaped: literal backslash escapes, hexadecimal escapes of one to six digits with or without the terminating whitespace, non-ASCII characters raw or escaped, in simple as well as in compound and nested selectors. Two names are the same class only if they are equal.",
["inputs"],"all class names (any characters HTML allows in a class) and all their CSS spellings",
"The Tailwind stylesheet of the tests only has backslash escapes of a few punctuation characters.",
[PA,R,M],[("escape parsing","parser.go parseEscape, parseName, parseIdentifier"),("registration by name","merge.go AddRules")],["Rules, Merge"])
add("C18","Every class of a selector gets the rule",
"A rule defines every class that occurs in one of the selectors of its list: alone, in compounds, on either side of any combinator and inside :is() and :where(), but not inside :not() or :has(). Its declarations are registered completely and in order, with property names in lower case, custom property names as written, and their values, with whitespace collapsed to single spaces, apart from comments and the backslashes of escapes.",
["inputs","programs"],"all selector lists, nested selectors and declaration blocks",
"Tests look at single classes of a few rules.",
[M,R],[("walk over the selector","merge.go walk, AddRules"),("declarations","rules.go buildDeclaration")],["Rules"])
add("C19","Printed selectors mean the same",
"For every supported selector, its String() parses again and the result has the same String(), specificity and pseudo-element and matches the same nodes. This holds for all values: quotes, backslashes, line breaks, digits first, non-ASCII and control characters in names and strings included.",
["inputs","programs"],"all selectors the parser accepts, with arbitrary identifiers and strings",
"TestSerialize round-trips a fixed list of selectors with tame names.",
[SR,PA],[("serialization","serialize.go"),("parsing","parser.go")],["String, Parse*"])
add("C20","Selectors match the nodes CSS says they match",
"For every supported selector and every document of HTML elements, matching follows the Selectors specification: type, class, id, attribute operators with the case flag, the four combinators, :not, :is, :where, :has, the structural pseudo-classes (nth-*, first/last/only-*, empty, root) and the form states (enabled, disabled, checked). Query returns the first match in document order below the node and QueryAll all of them in that order.",
["inputs","programs"],"all documents and all selectors built from these parts",
"selector_test.go and w3_test.go check fixed documents; the meaning of a combination of parts is a property of all trees.",
[SE,PC,PA],[("Match methods","selector.go, pseudo_classes.go"),("QueryAll, Query, Filter","selector.go")],["Match, QueryAll, Query, Filter"])
add("C21","Specificity follows the Selectors specification",
"For every supported selector the specificity is the sum over its parts: ids count in the first component, classes, attributes and pseudo-classes in the second, types and pseudo-elements in the third; :is, :not and :has count as their most specific argument and :where as nothing. Comparison of specificities is lexicographic and a strict order.",
["inputs","programs"],"all selectors, with any nesting, and all pairs of specificities",
"specificity_test.go checks some twenty selectors.",
[SP,SE,PC],[("Specificity methods","selector.go, pseudo_classes.go, specificity.go")],["Specificity, Less"])
add("C22","Mergers are independent of each other",
"What is added to or merged by one Merger has no effect on any other, whenever they were created. Merge does not change the rules, and no call changes the data that was passed to it.",
["histories"],"all interleaved histories on several Mergers, created before, between and after the calls on others",
"Every test uses one Merger for one purpose.",
[M,PR],[("state per Merger","merge.go NewMerger"),("property table shared read-only","properties.go GetProperties")],["Merge, Rules"])
add("C23","Spelling and layout of the stylesheet do not matter",
"Two stylesheets that differ only in whitespace, comments, line ends, the case of property names, at-keywords, element names, attribute names and pseudo-classes, optional semicolons, the escapes of names, empty rules for classes that are not otherwise used, or the quotes and escapes of strings in selectors have the same effect on every Merge.",
["inputs"],"all stylesheets and all equivalent spellings of them",
"Tests use the output of one formatter.",
[R,M],[("token handling","rules.go"),("value handling","merge.go regular expressions")],["Merge"])
add("C24","A printed rule reads back as the same rule",
"For every rule that Rules returns, ToCssFormat returns CSS that AddRules of another Merger accepts. It defines the same classes there, with the same declarations in the same order, importance and escapes included, and apart from the at-rules around the rule in the same circumstance, so that Merge gives the results of the rule that was printed.",
["inputs","programs"],"all rules that a stylesheet with closed blocks can define, whatever their selectors, names and values",
"No test prints a rule.",
[R,SR,M],[("ToCssFormat","rules.go"),("printing of selectors and names","serialize.go")],["Rules, ToCssFormat, AddRules, Merge"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
for p in P:
    n=p['statement'].replace('...','').count('. ')+1
    if n>3: print(p['id'],n)
