#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech):
    P.append((id, title, statement, over, text, why, files, mech, note, tech))

prop("C01", "Markup renders exactly the text and styles it spells",
 "For every well-formed markup string, parsing yields exactly its text with the tags removed and escapes undone, and every character carries precisely the style, colours and link action of the tags open around it, an inner tag overriding an outer one. Escaping any text and parsing it gives the text back unstyled. No string of any kind makes the parser crash; malformed markup is reported as an error.",
 ["inputs"], "every string, and every nesting of style, colour, link and action tags over arbitrary Unicode text",
 "The tests parse a few dozen fixed strings; nesting depth, tag order, close-by-name, multi-line text and multi-byte offsets form an unbounded space.",
 ["crates/rich/src/parser.rs", "crates/rich/src/lexer.rs", "crates/rich/src/style.rs", "crates/rich/src/color.rs", "crates/textual/src/content.rs"],
 [("tag stack and span building", "crates/rich/src/parser.rs"), ("escape handling", "crates/rich/src/lexer.rs")],
 "random markup trees against a direct interpreter; escape round trip; hostile strings", "property-based testing: generated markup trees vs a reference interpreter, escape round trip, hostile-input fuzzing")
prop("C02", "Colours mean the same in every notation and mix as specified",
 "Every named, hex, rgb and hsl notation of a colour, in any case and spacing, denotes the channels and alpha it spells, and malformed notations are refused without crashing. Compositing, tinting, blending and opacity give the linear mix of their inputs to within one step, stay between them and are exact at the ends; lightening and darkening move lightness by the amount given. The automatic contrast colour is always the more readable of black and white.",
 ["inputs"], "all colour strings and all pairs of 24-bit colours with alpha",
 "The tests sample a few colours; rounding and range errors sit at particular channel and alpha values.",
 ["crates/tcss/src/types/color.rs", "crates/rich/src/color.rs"],
 [("colour parser", "crates/tcss/src/types/color.rs"), ("mixing", "crates/tcss/src/types/color.rs")],
 "generated notations and colour pairs against double-precision formulas", "property-based testing: generated notations and colour pairs vs double-precision reference; hostile strings")
prop("C03", "A style sheet means what it says whatever its layout, or is refused",
 "A well-formed style sheet gives each property exactly the value written (shorthands spread over their parts, a later declaration replacing an earlier one, unknown properties ignored), independently of whitespace, comments, line breaks and a missing last semicolon. A known property with a value of the wrong kind makes the sheet an error instead of being half applied. No text makes the parser crash or hang.",
 ["inputs"], "every text, and every sequence of declarations of every property with every layout and comment placement",
 "Tests parse fixed sheets with conventional layout; the product of properties, value forms, separators and comments is not enumerable by hand.",
 ["crates/tcss/src/parser/mod.rs", "crates/tcss/src/parser/values.rs", "crates/tcss/src/parser/units.rs", "crates/tcss/src/parser/cascade.rs"],
 [("declaration parser", "crates/tcss/src/parser/mod.rs"), ("value parsers", "crates/tcss/src/parser/values.rs"), ("comment stripping", "crates/tcss/src/parser/mod.rs")],
 "generated declarations carry the longhand values they must set; rendered with random layout", "property-based testing: declaration generator with expected longhands, random layout/comment noise, mutation fuzzing")
prop("C04", "A selector matches a widget exactly when its definition says so",
 "A rule applies to a widget if and only if one of its selectors holds: the last part describes the widget (type or base type, id, classes, state and theme pseudo-classes) and the parts before it can be assigned to ancestors so that every child step is a direct parent and every descendant step is any ancestor above. All assignments of ancestors count, not only the nearest.",
 ["inputs", "configurations"], "every selector built from type, universal, id, class, pseudo-class, child and descendant, and every chain of ancestors",
 "Tests use chains of at most three distinct widgets; repeated types and mixed combinators need backtracking that such chains never exercise.",
 ["crates/tcss/src/parser/cascade.rs", "crates/tcss/src/parser/selectors.rs"],
 [("selector matching", "crates/tcss/src/parser/cascade.rs"), ("selector parser", "crates/tcss/src/parser/selectors.rs")],
 "generated selectors and ancestor chains against a forward set-based matcher", "property-based testing: generated selectors and ancestor chains vs a reference matcher")
prop("C05", "The most specific matching rule wins, ties go to the later one",
 "The computed style of a widget is what you get by applying all matching rules in order of specificity (ids, then classes and pseudo-classes, then types, counted over the whole selector, the best matching selector of a list counting) and, within equal specificity, in source order. Rules that do not match have no effect, and moving a rule past rules of a different specificity changes nothing.",
 ["inputs", "configurations"], "every set of rules with selector lists, every widget and ancestor chain",
 "Tests check pairs of rules; interactions of lists, shorthands and several specificities at once are not covered.",
 ["crates/tcss/src/parser/cascade.rs", "crates/tcss/src/parser/stylesheet.rs"],
 [("rule sorting and application", "crates/tcss/src/parser/cascade.rs"), ("specificity", "crates/tcss/src/parser/stylesheet.rs")],
 "generated sheets against a reference cascade; metamorphic removal and reordering", "property-based testing: generated sheets vs a reference cascade plus metamorphic relations")
prop("C06", "Nested rules equal their hand-flattened form",
 "A style sheet with nested rules gives every widget the same style as the sheet in which each nested rule is written out at top level: the ampersand replaced by the parent selector, a nested selector without it placed as a descendant, every parent combined with every child of the lists, at any depth. A rule's own declarations come before those of its nested rules.",
 ["inputs"], "every tree of nested rules up to four levels with selector lists and combinators",
 "Tests flatten a few one-level examples; depth, lists and combinators after the ampersand multiply.",
 ["crates/tcss/src/parser/flatten.rs", "crates/tcss/src/parser/mod.rs"],
 [("flattening", "crates/tcss/src/parser/flatten.rs")],
 "generated nested sheets against the reference cascade over hand-flattened rules", "property-based testing: metamorphic nested vs hand-flattened sheets, and reference cascade")
prop("C07", "Variables and theme names stand for their values",
 "Replacing any values in a style sheet by variables, directly or through other variables and wherever at top level these are defined, changes no computed style; cyclic definitions end without a crash. A reference to a theme name takes the active theme's colour or text style with the alpha written after it. Every theme, generated or built in, defines all base colours, their shades, ordered from darkest to lightest, and the colours and text styles derived from them for text, links, cursors, borders, scrollbars, headings and buttons.",
 ["inputs", "configurations"], "every sheet with variable definitions in any position, every theme and palette",
 "Tests use one or two variables on lines of their own and the built-in themes.",
 ["crates/tcss/src/parser/variables.rs", "crates/tcss/src/parser/cascade.rs", "crates/tcss/src/types/theme.rs"],
 [("variable expansion", "crates/tcss/src/parser/variables.rs"), ("theme colour resolution", "crates/tcss/src/parser/cascade.rs"), ("palette generation", "crates/tcss/src/types/theme.rs")],
 "metamorphic: variables introduced into generated sheets; theme pairs; generated palettes and built-in themes against a reference derivation", "property-based testing: metamorphic variable introduction, theme differential, generated palettes vs a reference derivation")

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for (id, title, st, over, text, why, files, mech, note, tech) in P:
        assert len(title) <= 80, (id, len(title))
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, ensure_ascii=False) + "\n")
hooks = json.load(open(os.path.join(HERE, "tools", "hooks.json")))
man = {"version": 1, "setup_cmd": "./check.sh --build", "hooks": hooks,
 "checks": [{"property": p[0], "quick_cmd": f"./check.sh {p[0]} quick", "thorough_cmd": f"./check.sh {p[0]} thorough", "technique": p[9], "level": "exploration", "level_note": p[8], "evidence_file": f"evidence/{p[0]}.json"} for p in P],
 "not_applicable": []}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
