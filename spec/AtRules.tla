-------------------------------- MODULE AtRules --------------------------------
(***************************************************************************)
(* At-rules that have no effect: names, preludes, bodies, in every         *)
(* combination, and where they stand: between rules, within @media, within *)
(* another such at-rule.  And the two that count, in any case.             *)
(* Each is written between rules that must take effect all the same.       *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Class(c) == [k |-> "class", v |-> c]
Decl(p, val) == [p |-> p, i |-> FALSE, vars |-> <<>>, val |-> val]
Rule(c, p, val) == [t |-> "rule", sels |-> <<Class(c)>>, decls |-> <<Decl(p, val)>>]
At(kind, cond, body) == [t |-> "at", kind |-> kind, cond |-> cond, body |-> body]
Junk(text) == [t |-> "junk", text |-> text]

\* names; those with a block of declarations first
DeclNames == {"font-face", "page", "FONT-FACE", "Page"}
BlockNames == {"layer", "keyframes", "-webkit-keyframes", "-moz-keyframes", "-o-keyframes", "KEYFRAMES", "counter-style", "property", "container", "scope",
               "starting-style", "document", "-moz-document", "font-feature-values", "font-palette-values", "view-transition", "position-try", "color-profile",
               "viewport", "-ms-viewport", "-o-viewport", "tailwind", "apply", "custom-media", "custom-selector", "nest", "when", "else", "if", "include", "mixin", "utility",
               "variant", "theme", "screen", "responsive", "unknown", "-x-unknown", "-webkit-media", "-moz-supports", "-webkit-supports", "mediax", "xmedia", "med", "media-", "supports-", "supportsx",
               "-media", "_media", "import", "charset", "namespace", "Layer", "é"}
Preludes == {"", " x", " (min-width:1px)", " a,b", " :first", " \"x\"", " (x) and (y)", " from(1)", " .a", " .b,.c"}

R(c) == "." \o c \o "{color:red}"
\* what may stand in a block; b and c are classes that are defined elsewhere, n is not
Bodies == {"", R("b"), R("n") \o R("b"), R("n") \o "@media print{" \o R("b") \o R("n") \o "}" \o R("c"), "@media print{" \o R("b") \o "}",
           "@layer y{" \o R("b") \o "}" \o R("c"), "@font-face{color:red;src:url(x)}" \o R("b"), "@supports (a:b){@media print{" \o R("c") \o "}" \o R("b") \o "}",
           ".b,.c:hover{color:red;width:1px}", ".b{}", "@import \"x\";" \o R("b"), "from{color:red}50%{width:1px}to{color:blue}", "@x y;" \o R("n"), ".b{color:red;--x:{a:b}}",
           " /* } */ " \o R("b"), R("b") \o "@page{margin:0}" \o R("c") \o "@keyframes k{from{color:red}}" \o R("n")}
DeclBodies == {"", "color:red", "color:red;", "color:red;width:1px;--x:1", ";", "src:url(x),url(\"y\") format('z');color:red", "color:red!important;"}
Statements == {";"}

Texts == { "@" \o n \o p \o "{" \o b \o "}" : n \in DeclNames, p \in {"", " x", " :first"}, b \in DeclBodies }
    \cup { "@" \o n \o p \o "{" \o b \o "}" : n \in BlockNames, p \in Preludes, b \in Bodies }
    \cup { "@" \o n \o p \o ";" : n \in BlockNames \cup DeclNames \cup {"media", "supports"}, p \in Preludes }

\* the stylesheet around it
Before == Rule("b", "width", "1px")
After == Rule("c", "height", "2px")
Sheets(j) == { <<Before, j, After>>, <<Before, At("media", "print", <<j, Rule("d", "color", "x")>>), After>>,
               <<At("supports", "(x:y)", <<Before, At("media", "screen", <<Rule("d", "width", "y"), j>>), After>>), Rule("e", "color", "z")>> }
Nested(t) == { "@layer z{" \o t \o R("n") \o "}", "@container (x){@media print{" \o R("b") \o t \o "}}" }

\* only the texts go to the harness, with the number of the sheet to put them in
Number == SetToSeq(Texts)
ASSUME JsonSerialize(IOEnv.OUT, [texts |-> Number, nested |-> SetToSeq(UNION {Nested(Number[i]) : i \in {k \in DOMAIN Number : k % 7 = 0}}),
                                 sheets |-> SetToSeq(Sheets(Junk("?")))])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
================================================================================
