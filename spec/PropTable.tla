----------------------------- MODULE PropTable -----------------------------
(***************************************************************************)
(* The shorthands of CSS and the properties they consist of, written down  *)
(* from the CSS specifications and not derived from the property table of  *)
(* the library.  Parts may be shorthands themselves.  A property that is   *)
(* not listed here consists of itself.                                     *)
(***************************************************************************)
EXTENDS TLC, Sequences

LOCAL S(name, parts) == name :> parts
LOCAL Sides(pre, suf) == {pre \o "top" \o suf, pre \o "right" \o suf, pre \o "bottom" \o suf, pre \o "left" \o suf}
LOCAL StartEnd(pre, suf) == {pre \o "start" \o suf, pre \o "end" \o suf}
LOCAL WSC(pre) == {pre \o "-width", pre \o "-style", pre \o "-color"}

Parts ==
  \* box model
     S("margin", Sides("margin-", ""))
  @@ S("margin-block", StartEnd("margin-block-", ""))
  @@ S("margin-inline", StartEnd("margin-inline-", ""))
  @@ S("padding", Sides("padding-", ""))
  @@ S("padding-block", StartEnd("padding-block-", ""))
  @@ S("padding-inline", StartEnd("padding-inline-", ""))
  @@ S("inset", {"top", "right", "bottom", "left"})
  @@ S("inset-block", StartEnd("inset-block-", ""))
  @@ S("inset-inline", StartEnd("inset-inline-", ""))
  @@ S("scroll-margin", Sides("scroll-margin-", ""))
  @@ S("scroll-margin-block", StartEnd("scroll-margin-block-", ""))
  @@ S("scroll-margin-inline", StartEnd("scroll-margin-inline-", ""))
  @@ S("scroll-padding", Sides("scroll-padding-", ""))
  @@ S("scroll-padding-block", StartEnd("scroll-padding-block-", ""))
  @@ S("scroll-padding-inline", StartEnd("scroll-padding-inline-", ""))
  @@ S("contain-intrinsic-size", {"contain-intrinsic-width", "contain-intrinsic-height"})
  @@ S("overflow", {"overflow-x", "overflow-y"})
  @@ S("overscroll-behavior", {"overscroll-behavior-x", "overscroll-behavior-y"})
  \* borders and outlines
  @@ S("border", WSC("border"))
  @@ S("border-width", Sides("border-", "-width"))
  @@ S("border-style", Sides("border-", "-style"))
  @@ S("border-color", Sides("border-", "-color"))
  @@ S("border-top", WSC("border-top"))
  @@ S("border-right", WSC("border-right"))
  @@ S("border-bottom", WSC("border-bottom"))
  @@ S("border-left", WSC("border-left"))
  @@ S("border-block", WSC("border-block"))
  @@ S("border-block-width", StartEnd("border-block-", "-width"))
  @@ S("border-block-style", StartEnd("border-block-", "-style"))
  @@ S("border-block-color", StartEnd("border-block-", "-color"))
  @@ S("border-block-start", WSC("border-block-start"))
  @@ S("border-block-end", WSC("border-block-end"))
  @@ S("border-inline", WSC("border-inline"))
  @@ S("border-inline-width", StartEnd("border-inline-", "-width"))
  @@ S("border-inline-style", StartEnd("border-inline-", "-style"))
  @@ S("border-inline-color", StartEnd("border-inline-", "-color"))
  @@ S("border-inline-start", WSC("border-inline-start"))
  @@ S("border-inline-end", WSC("border-inline-end"))
  @@ S("-webkit-border-before", WSC("border-block-start"))
  @@ S("border-radius", {"border-top-left-radius", "border-top-right-radius",
                         "border-bottom-right-radius", "border-bottom-left-radius"})
  @@ S("-moz-outline-radius", {"-moz-outline-radius-topleft", "-moz-outline-radius-topright",
                               "-moz-outline-radius-bottomright", "-moz-outline-radius-bottomleft"})
  @@ S("border-image", {"border-image-source", "border-image-slice", "border-image-width",
                        "border-image-outset", "border-image-repeat"})
  @@ S("outline", WSC("outline"))
  \* backgrounds and masks
  @@ S("background", {"background-image", "background-position", "background-size", "background-repeat",
                      "background-origin", "background-clip", "background-attachment", "background-color"})
  @@ S("background-position", {"background-position-x", "background-position-y"})
  @@ S("mask", {"mask-image", "mask-mode", "mask-repeat", "mask-position", "mask-clip", "mask-origin",
                "mask-size", "mask-composite"})
  @@ S("mask-border", {"mask-border-source", "mask-border-slice", "mask-border-width",
                       "mask-border-outset", "mask-border-repeat", "mask-border-mode"})
  @@ S("-webkit-mask", {"-webkit-mask-image", "-webkit-mask-repeat", "-webkit-mask-attachment",
                        "-webkit-mask-position", "-webkit-mask-origin", "-webkit-mask-clip"})
  \* text and fonts
  @@ S("font", {"font-style", "font-variant", "font-weight", "font-stretch", "font-size", "line-height", "font-family"})
  @@ S("font-variant", {"font-variant-alternates", "font-variant-caps", "font-variant-east-asian", "font-variant-emoji",
                        "font-variant-ligatures", "font-variant-numeric", "font-variant-position"})
  @@ S("font-synthesis", {"font-synthesis-position", "font-synthesis-small-caps", "font-synthesis-style",
                          "font-synthesis-weight"})
  @@ S("list-style", {"list-style-type", "list-style-position", "list-style-image"})
  @@ S("text-decoration", {"text-decoration-line", "text-decoration-style", "text-decoration-color",
                           "text-decoration-thickness"})
  @@ S("text-emphasis", {"text-emphasis-style", "text-emphasis-color"})
  @@ S("-webkit-text-stroke", {"-webkit-text-stroke-width", "-webkit-text-stroke-color"})
  @@ S("caret", {"caret-color", "caret-shape"})
  \* flex, grid, columns, alignment
  @@ S("flex", {"flex-grow", "flex-shrink", "flex-basis"})
  @@ S("flex-flow", {"flex-direction", "flex-wrap"})
  @@ S("gap", {"row-gap", "column-gap"})
  @@ S("grid-gap", {"grid-row-gap", "grid-column-gap"})
  @@ S("grid", {"grid-template-rows", "grid-template-columns", "grid-template-areas",
                "grid-auto-rows", "grid-auto-columns", "grid-auto-flow"})
  @@ S("grid-template", {"grid-template-rows", "grid-template-columns", "grid-template-areas"})
  @@ S("grid-area", {"grid-row-start", "grid-column-start", "grid-row-end", "grid-column-end"})
  @@ S("grid-row", {"grid-row-start", "grid-row-end"})
  @@ S("grid-column", {"grid-column-start", "grid-column-end"})
  @@ S("columns", {"column-width", "column-count"})
  @@ S("column-rule", WSC("column-rule"))
  @@ S("place-content", {"align-content", "justify-content"})
  @@ S("place-items", {"align-items", "justify-items"})
  @@ S("place-self", {"align-self", "justify-self"})
  \* animation, motion, scrolling, containment
  @@ S("animation", {"animation-name", "animation-duration", "animation-timing-function", "animation-delay",
                     "animation-direction", "animation-iteration-count", "animation-fill-mode",
                     "animation-play-state", "animation-timeline"})
  @@ S("animation-range", {"animation-range-start", "animation-range-end"})
  @@ S("transition", {"transition-property", "transition-duration", "transition-timing-function",
                      "transition-delay", "transition-behavior"})
  @@ S("offset", {"offset-position", "offset-path", "offset-distance", "offset-anchor", "offset-rotate"})
  @@ S("container", {"container-name", "container-type"})
  @@ S("scroll-timeline", {"scroll-timeline-name", "scroll-timeline-axis"})
  @@ S("view-timeline", {"view-timeline-name", "view-timeline-axis"})
  \* Microsoft extensions
  @@ S("-ms-content-zoom-limit", {"-ms-content-zoom-limit-min", "-ms-content-zoom-limit-max"})
  @@ S("-ms-content-zoom-snap", {"-ms-content-zoom-snap-type", "-ms-content-zoom-snap-points"})
  @@ S("-ms-scroll-limit", {"-ms-scroll-limit-x-min", "-ms-scroll-limit-y-min",
                            "-ms-scroll-limit-x-max", "-ms-scroll-limit-y-max"})
  @@ S("-ms-scroll-snap-x", {"-ms-scroll-snap-type", "-ms-scroll-snap-points-x"})
  @@ S("-ms-scroll-snap-y", {"-ms-scroll-snap-type", "-ms-scroll-snap-points-y"})

RECURSIVE Expand(_)
LOCAL ExpandSet(ps) == UNION {Expand(q) : q \in ps}
Expand(p) == IF p \in DOMAIN Parts THEN ExpandSet(Parts[p]) ELSE {p}

\* the longhands of every shorthand (a constant: computed once)
LonghandTable == TLCEval([p \in DOMAIN Parts |-> Expand(p)])

\* what a declaration of property p sets
Longhands(p) == IF p \in DOMAIN LonghandTable THEN LonghandTable[p] ELSE {p}
=============================================================================
