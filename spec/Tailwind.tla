------------------------------- MODULE Tailwind -------------------------------
(***************************************************************************)
(* The classes that Tailwind makes: utilities (declarations) crossed with  *)
(* variants (circumstances) and the important modifier.  TLC writes all of *)
(* them to a file; the harness gives the library stylesheets made of some  *)
(* and lets it merge lists of them; Session judges the results.            *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

D(p) == [p |-> p, i |-> FALSE, vars |-> <<>>, val |-> ""]
V(p, vs) == [p |-> p, i |-> FALSE, vars |-> vs, val |-> ""]

Class(c) == [k |-> "class", v |-> c]
Ps(v) == [k |-> "ps", v |-> v]
First == [k |-> "nth", a |-> 0, b |-> 1, last |-> FALSE, of |-> FALSE]
Odd == [k |-> "nth", a |-> 2, b |-> 1, last |-> FALSE, of |-> FALSE]
Attr(key, op, val) == [k |-> "attr", key |-> key, op |-> op, val |-> val, i |-> FALSE]
Cmp(ps, pe) == IF Len(ps) = 1 /\ pe = "" THEN ps[1] ELSE [k |-> "cmp", parts |-> ps, pe |-> pe]
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
Star == [k |-> "cmp", parts |-> <<>>, pe |-> ""]
Tag(v) == [k |-> "tag", v |-> v]

----------------------------------------------------------------------------
Shadows == V("box-shadow", <<"--tw-ring-offset-shadow", "--tw-ring-shadow", "--tw-shadow">>)
Transform == V("transform", <<"--tw-translate-x", "--tw-translate-y", "--tw-rotate", "--tw-scale-x", "--tw-scale-y">>)
Filter == V("filter", <<"--tw-blur", "--tw-brightness", "--tw-drop-shadow">>)
Stops == V("--tw-gradient-stops", <<"--tw-gradient-from", "--tw-gradient-to">>)

\* family |-> utility |-> declarations
Families ==
  [ padding |-> [ x \in {"p-4", "p-[2px]"} |-> <<D("padding")>> ] @@
                [ x \in {"px-2"} |-> <<D("padding-left"), D("padding-right")>> ] @@
                [ x \in {"py-2"} |-> <<D("padding-top"), D("padding-bottom")>> ] @@
                [ x \in {"pt-1", "pt-0.5"} |-> <<D("padding-top")>> ] @@
                [ x \in {"pl-1/2"} |-> <<D("padding-left")>> ] @@
                [ x \in {"ps-1"} |-> <<D("padding-inline-start")>> ],
    margin  |-> [ x \in {"m-4"} |-> <<D("margin")>> ] @@ [ x \in {"mx-auto"} |-> <<D("margin-left"), D("margin-right")>> ] @@
                [ x \in {"-mt-1"} |-> <<D("margin-top")>> ] @@ [ x \in {"mr-[3%]"} |-> <<D("margin-right")>> ],
    inset   |-> [ x \in {"inset-0"} |-> <<D("inset")>> ] @@ [ x \in {"inset-x-0"} |-> <<D("left"), D("right")>> ] @@
                [ x \in {"top-0", "-top-1"} |-> <<D("top")>> ] @@ [ x \in {"right-0"} |-> <<D("right")>> ],
    size    |-> [ x \in {"w-4", "w-full"} |-> <<D("width")>> ] @@ [ x \in {"h-4"} |-> <<D("height")>> ] @@
                [ x \in {"size-4"} |-> <<D("width"), D("height")>> ] @@
                [ x \in {"sr-only"} |-> <<D("position"), D("width"), D("height"), D("padding"), D("margin"), D("overflow"), D("clip"), D("white-space"), D("border-width")>> ] @@
                [ x \in {"not-sr-only"} |-> <<D("position"), D("width"), D("height"), D("padding"), D("margin"), D("overflow"), D("clip"), D("white-space")>> ],
    border  |-> [ x \in {"border", "border-2"} |-> <<D("border-width")>> ] @@ [ x \in {"border-x"} |-> <<D("border-left-width"), D("border-right-width")>> ] @@
                [ x \in {"border-t"} |-> <<D("border-top-width")>> ] @@ [ x \in {"border-dashed"} |-> <<D("border-style")>> ] @@
                [ x \in {"border-red-500"} |-> <<D("--tw-border-opacity"), V("border-color", <<"--tw-border-opacity">>)>> ] @@
                [ x \in {"border-transparent"} |-> <<D("border-color")>> ] @@ [ x \in {"border-opacity-50"} |-> <<D("--tw-border-opacity")>> ] @@
                [ x \in {"border-t-red-500"} |-> <<D("--tw-border-opacity"), V("border-top-color", <<"--tw-border-opacity">>)>> ] @@
                [ x \in {"[border:0]"} |-> <<D("border")>> ],
    radius  |-> [ x \in {"rounded", "rounded-lg"} |-> <<D("border-radius")>> ] @@
                [ x \in {"rounded-t"} |-> <<D("border-top-left-radius"), D("border-top-right-radius")>> ] @@
                [ x \in {"rounded-tl"} |-> <<D("border-top-left-radius")>> ],
    bg      |-> [ x \in {"bg-red-500", "bg-blue-500"} |-> <<D("--tw-bg-opacity"), V("background-color", <<"--tw-bg-opacity">>)>> ] @@
                [ x \in {"bg-transparent"} |-> <<D("background-color")>> ] @@ [ x \in {"bg-opacity-50"} |-> <<D("--tw-bg-opacity")>> ] @@
                [ x \in {"bg-none"} |-> <<D("background-image")>> ] @@
                [ x \in {"bg-gradient-to-r"} |-> <<V("background-image", <<"--tw-gradient-stops">>)>> ] @@
                [ x \in {"from-red"} |-> <<D("--tw-gradient-from"), D("--tw-gradient-to"), Stops>> ] @@
                [ x \in {"via-red"} |-> <<D("--tw-gradient-to"), Stops>> ] @@ [ x \in {"to-red"} |-> <<D("--tw-gradient-to")>> ] @@
                [ x \in {"bg-center"} |-> <<D("background-position")>> ] @@ [ x \in {"[background:none]"} |-> <<D("background")>> ],
    text    |-> [ x \in {"text-red-500"} |-> <<D("--tw-text-opacity"), V("color", <<"--tw-text-opacity">>)>> ] @@
                [ x \in {"text-current"} |-> <<D("color")>> ] @@ [ x \in {"text-opacity-50"} |-> <<D("--tw-text-opacity")>> ] @@
                [ x \in {"text-sm", "text-lg"} |-> <<D("font-size"), D("line-height")>> ] @@ [ x \in {"text-[13px]"} |-> <<D("font-size")>> ] @@
                [ x \in {"leading-4"} |-> <<D("line-height")>> ] @@ [ x \in {"text-center"} |-> <<D("text-align")>> ] @@
                [ x \in {"truncate"} |-> <<D("overflow"), D("text-overflow"), D("white-space")>> ] @@ [ x \in {"overflow-x-auto"} |-> <<D("overflow-x")>> ] @@
                [ x \in {"whitespace-normal"} |-> <<D("white-space")>> ] @@ [ x \in {"[font:inherit]"} |-> <<D("font")>> ],
    shadow  |-> [ x \in {"shadow", "shadow-lg"} |-> <<D("--tw-shadow"), V("--tw-shadow-colored", <<"--tw-shadow-color">>), Shadows>> ] @@
                [ x \in {"shadow-red"} |-> <<D("--tw-shadow-color"), V("--tw-shadow", <<"--tw-shadow-colored">>)>> ] @@
                [ x \in {"ring", "ring-2"} |-> <<V("--tw-ring-offset-shadow", <<"--tw-ring-inset", "--tw-ring-offset-width", "--tw-ring-offset-color">>),
                                                 V("--tw-ring-shadow", <<"--tw-ring-inset", "--tw-ring-offset-width", "--tw-ring-color">>), Shadows>> ] @@
                [ x \in {"ring-red"} |-> <<D("--tw-ring-opacity"), V("--tw-ring-color", <<"--tw-ring-opacity">>)>> ] @@
                [ x \in {"ring-inset"} |-> <<D("--tw-ring-inset")>> ] @@ [ x \in {"ring-offset-2"} |-> <<D("--tw-ring-offset-width")>> ] @@
                [ x \in {"ring-opacity-50"} |-> <<D("--tw-ring-opacity")>> ],
    effects |-> [ x \in {"scale-50"} |-> <<D("--tw-scale-x"), D("--tw-scale-y"), Transform>> ] @@ [ x \in {"scale-x-50"} |-> <<D("--tw-scale-x"), Transform>> ] @@
                [ x \in {"translate-x-1"} |-> <<D("--tw-translate-x"), Transform>> ] @@ [ x \in {"rotate-3"} |-> <<D("--tw-rotate"), Transform>> ] @@
                [ x \in {"transform-none"} |-> <<D("transform")>> ] @@
                [ x \in {"blur"} |-> <<D("--tw-blur"), Filter>> ] @@ [ x \in {"brightness-50"} |-> <<D("--tw-brightness"), Filter>> ] @@
                [ x \in {"filter-none"} |-> <<D("filter")>> ] @@
                [ x \in {"transition"} |-> <<D("transition-property"), D("transition-timing-function"), D("transition-duration")>> ] @@
                [ x \in {"duration-100"} |-> <<D("transition-duration")>> ] @@ [ x \in {"transition-none"} |-> <<D("transition-property")>> ],
    flex    |-> [ x \in {"flex", "block", "hidden"} |-> <<D("display")>> ] @@ [ x \in {"flex-1"} |-> <<D("flex")>> ] @@ [ x \in {"grow"} |-> <<D("flex-grow")>> ] @@
                [ x \in {"basis-1/2"} |-> <<D("flex-basis")>> ] @@ [ x \in {"gap-2"} |-> <<D("gap")>> ] @@ [ x \in {"gap-x-2"} |-> <<D("column-gap")>> ] @@
                [ x \in {"place-items-center"} |-> <<D("place-items")>> ] @@ [ x \in {"items-start"} |-> <<D("align-items")>> ] @@
                [ x \in {"overflow-auto"} |-> <<D("overflow")>> ] @@ [ x \in {"overflow-y-auto"} |-> <<D("overflow-y")>> ] @@
                [ x \in {"line-clamp-2"} |-> <<D("overflow"), D("display"), D("-webkit-box-orient"), D("-webkit-line-clamp")>> ] ]

\* utilities that style the siblings inside
Beyond ==
  [ spacing |-> [ x \in {"space-x-2", "space-x-4"} |-> <<D("--tw-space-x-reverse"), V("margin-right", <<"--tw-space-x-reverse">>), V("margin-left", <<"--tw-space-x-reverse">>)>> ] @@
                [ x \in {"space-x-reverse"} |-> <<D("--tw-space-x-reverse")>> ] @@
                [ x \in {"space-y-2"} |-> <<D("--tw-space-y-reverse"), V("margin-top", <<"--tw-space-y-reverse">>), V("margin-bottom", <<"--tw-space-y-reverse">>)>> ] @@
                [ x \in {"divide-x"} |-> <<D("--tw-divide-x-reverse"), V("border-right-width", <<"--tw-divide-x-reverse">>), V("border-left-width", <<"--tw-divide-x-reverse">>)>> ] @@
                [ x \in {"divide-solid"} |-> <<D("border-style")>> ] @@
                [ x \in {"divide-red"} |-> <<D("--tw-divide-opacity"), V("border-color", <<"--tw-divide-opacity">>)>> ] ]

----------------------------------------------------------------------------
(* Variants: what the selector ends in, what it stands in, and at-rules *)

Hidden == Fn("not", <<Attr("hidden", "", "")>>)
States == << <<"", <<>>>>, <<"hover:", <<Ps("hover")>>>>, <<"focus:", <<Ps("focus")>>>>, <<"hover:focus:", <<Ps("focus"), Ps("hover")>>>>,
            <<"focus:hover:", <<Ps("hover"), Ps("focus")>>>>, <<"first:", <<First>>>>, <<"odd:", <<Odd>>>>, <<"disabled:hover:", <<Ps("hover"), Ps("disabled")>>>>,
            <<"open:", <<Attr("open", "", "")>>>>, <<"aria-checked:", <<Attr("aria-checked", "=", "true")>>>>,
            <<"[&:not(:first-child)]:", <<Fn("not", <<First>>)>>>>, <<"has-[:checked]:", <<Fn("has", <<Ps("checked")>>)>>>> >>
Elements == << <<"", "">>, <<"before:", "before">>, <<"placeholder:", "placeholder">> >>

\* the name of the variant, and the selector around the class x
Around(v, x) ==
  CASE v = "" -> x
    [] v = "dark:" -> Fn("is", <<Comb(" ", Class("dark"), x)>>)
    [] v = "group-hover:" -> Comb(" ", Cmp(<<Class("group"), Ps("hover")>>, ""), x)
    [] v = "group-focus:" -> Comb(" ", Cmp(<<Class("group"), Ps("focus")>>, ""), x)
    [] v = "peer-checked:" -> Comb("~", Cmp(<<Class("peer"), Ps("checked")>>, ""), x)
    [] v = "rtl:" -> Fn("is", <<Comb(" ", Attr("dir", "=", "rtl"), x)>>)
    [] v = "ltr:" -> Fn("is", <<Comb(" ", Attr("dir", "=", "ltr"), x)>>)
    [] v = "*:" -> Comb(">", x, Star)
    [] v = "[&>p]:" -> Comb(">", x, Tag("p"))
    [] v = "[&_p]:" -> Comb(" ", x, Tag("p"))
    [] v = "space" -> Comb("~", Comb(">", x, Hidden), Hidden)
Arounds == <<"", "dark:", "group-hover:", "group-focus:", "peer-checked:", "rtl:", "ltr:", "*:", "[&>p]:", "[&_p]:">>

At(kind, cond) == [kind |-> kind, cond |-> cond]
Ats == << <<"", <<>>>>, <<"sm:", <<At("media", "(min-width:640px)")>>>>, <<"md:", <<At("media", "(min-width:768px)")>>>>, <<"print:", <<At("media", "print")>>>>,
         <<"sm:print:", <<At("media", "print"), At("media", "(min-width:640px)")>>>>, <<"print:sm:", <<At("media", "(min-width:640px)"), At("media", "print")>>>>,
         <<"supports-[display:grid]:", <<At("supports", "(display:grid)")>>>>,
         <<"motion-reduce:md:", <<At("media", "(prefers-reduced-motion:reduce)"), At("media", "(min-width:768px)")>>>> >>

\* a choice of options of each, with some next to each other: number K
K == atoi(IOEnv.NUMBER)
Choice(opts, n, step) == {opts[1]} \cup {opts[((K * step + j) % Len(opts)) + 1] : j \in 1..n}
Kinds == { <<at[1] \o ar \o st[1] \o el[1], at[2], ar, st[2], el[2]>> :
             at \in Choice(Ats, 2, 3), ar \in Choice(Arounds, 2, 3), st \in Choice(States, 3, 5), el \in Choice(Elements, 1, 1) }

RECURSIVE Wrap(_, _)
Wrap(ats, it) == IF ats = <<>> THEN it ELSE [t |-> "at", kind |-> Head(ats).kind, cond |-> Head(ats).cond, body |-> <<Wrap(Tail(ats), it)>>]

\* the selector of class c in the kind of circumstance k; special: "" or a further structure
Selector(c, k, special) ==
  LET inner == Cmp(<<Class(c)>> \o k[4], IF special = "" THEN k[5] ELSE "")
      s == IF special = "" THEN inner ELSE Around(special, inner)
  IN Around(k[3], s)

Chosen ==
  LET Important(ds) == [i \in DOMAIN ds |-> [ds[i] EXCEPT !.i = TRUE]]
      Listed(F) == LET ns == SetToSeq(DOMAIN F) IN [i \in DOMAIN ns |-> [name |-> ns[i], us |-> F[ns[i]]]]
      Rule(name, family, k, special, ds) ==
        [class |-> name, family |-> family, kind |-> k[1],
         item |-> Wrap(k[2], [t |-> "rule", sels |-> <<Selector(name, k, special)>>, decls |-> ds])]
      OfFamily(f, special, k) ==
        LET us == SetToSeq(DOMAIN f.us)
        IN FlattenSeq([j \in 1..Len(us) |->
             <<Rule(k[1] \o us[j], f.name, k, special, f.us[us[j]]),
               Rule(k[1] \o "!" \o us[j], f.name, k, special, Important(f.us[us[j]]))>>])
      Rules(fs, special, k) == FlattenSeq([n \in 1..Len(fs) |-> OfFamily(fs[n], special, k)])
      ks == SetToSeq(Kinds)
      Inner(k) == k[3] \notin {"*:", "[&>p]:", "[&_p]:"} /\ k[5] = ""
      fam == Listed(Families)
      bey == Listed(Beyond)
  IN FlattenSeq([i \in DOMAIN ks |->
       Rules(fam, "", ks[i]) \o (IF Inner(ks[i]) THEN Rules(bey, "space", ks[i]) ELSE <<>>)])

ASSUME JsonSerialize(IOEnv.OUT, Chosen)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
