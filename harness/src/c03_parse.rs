//! C03: a well-formed sheet means what it says whatever its layout; a malformed one is refused.
use crate::common::*;
use crate::engine::*;
use crate::sheet::*;
use crate::{ensure, fail};
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::ComputedStyle;

fn widget() -> WidgetMeta {
    WidgetMeta { type_name: "Label", type_names: vec!["Label", "Static"], ..Default::default() }
}

fn meaning(g: &mut G) -> R {
    let th = theme(g);
    let nrules = g.usize(1, 4);
    let mut text = ws(g, false, true);
    let mut want = observe(&ComputedStyle::default());
    let mut n = 0;
    for _ in 0..nrules {
        let decls = g.vec(0, 5, |g| decl(g, &th));
        // same specificity throughout, so source order decides
        let hit = !g.chance(1, 5);
        let sel = if hit { g.pick(&["Label", "Static", "Foo, Label"]) } else { "Absent" };
        text.push_str(&format!("{sel}{}{{", ws(g, false, true)));
        text.push_str(&body_text(g, &decls, true));
        text.push('}');
        text.push_str(&ws(g, false, true));
        if hit {
            for dl in &decls {
                apply(&mut want, dl);
            }
        }
        n += decls.len();
    }
    g.key(&text);
    g.nontrivial_if(n >= 2);
    g.label_if(text.contains("/*"), "block comment");
    g.label_if(text.contains("//"), "line comment");
    g.label_if(text.contains("unknown") || text.contains("frob"), "unknown property");
    g.note(|| text.clone());
    let sheet = match parse_stylesheet(&text) {
        Ok(s) => s,
        Err(e) => fail!("well-formed sheet rejected: {e:?}"),
    };
    let got = observe(&compute_style(&widget(), &[], &sheet, &th));
    if let Some(m) = diff(&got, &want) {
        fail!("{m}");
    }
    Ok(())
}

/// A value of the wrong kind for a known property: the sheet must be refused, not half applied.
fn refused(g: &mut G) -> R {
    let th = theme(g);
    const BAD: &[(&str, &str)] = &[
        ("width", "banana"), ("width", "10px"), ("height", "#fff"), ("min-width", "%"), ("max-height", "--3"), ("color", "notacolour"), ("background", "#12345"), ("background", "#ggg"),
        ("background", "rgb(1,2)"), ("tint", "12"), ("border", "wavy red"), ("border", "red"), ("border-top", "solid nocolour"), ("text-align", "middle"), ("display", "inline"), ("visibility", "yes"),
        ("dock", "center"), ("layout", "flow"), ("overflow", "visible"), ("overflow-x", "5"), ("text-style", "fat"), ("link-style", "bold wobbly"), ("grid-size", "a"), ("column-span", "-1"), ("row-span", "x"),
        ("offset", "1"), ("margin", "big"), ("padding-left", "x"), ("opacity", "dark"), ("keyline", "wavy red"), ("keyline", "thin"), ("hatch", "zigzag red"), ("scrollbar-size", "auto"), ("scrollbar-gutter", "no"),
        ("box-sizing", "both"), ("position", "fixed"), ("align", "left"), ("content-align", "middle left"), ("text-wrap", "maybe"), ("text-overflow", "cut"), ("scrollbar-size-vertical", "70000"), ("line-pad", "99999"),
    ];
    let (p, v) = *g.of(BAD);
    let before = g.vec(0, 2, |g| decl(g, &th));
    let after = g.vec(0, 2, |g| decl(g, &th));
    let mut text = String::new();
    if g.bool() {
        let d0 = g.vec(0, 2, |g| decl(g, &th));
        text.push_str(&format!("Button {{ {} }}\n", body_text(g, &d0, true)));
    }
    text.push_str("Label {");
    for dl in &before {
        text.push_str(&decl_text(g, dl, false));
        text.push(';');
    }
    text.push_str(&format!("{p}: {v};"));
    for dl in &after {
        text.push_str(&decl_text(g, dl, false));
        text.push(';');
    }
    text.push('}');
    text.push_str(&ws(g, false, true));
    g.nontrivial_if(true);
    g.key(&text);
    g.note(|| text.clone());
    match parse_stylesheet(&text) {
        Err(e) => {
            ensure!(!format!("{e}").is_empty(), "empty error message");
            Ok(())
        }
        Ok(s) => fail!("`{p}: {v}` was accepted: {s:?}"),
    }
}

const ALPHA: &[&str] = &[
    "Button", "Label", "{", "}", "{", "}", ":", ";", " ", "\n", "color", "width", "margin", "border", "hatch", "text-style", "layers", "grid-columns", "keyline", "opacity", "#", ".", ">", "+", "~", "*", "&", ",", "$x", "$x: 1;", "$",
    "red", "#fff", "10", "1fr", "50%", "auto", "-", "--", "%", "(", ")", "rgb(", "hsl(", "\"", "'", "/*", "*/", "//", "!important", "[", "]", "=", "solid", "none", "é", "世", "\u{301}", "0", "99999999999999999999", "1e9", "\r\n", "\t", "\0",
];

fn total(g: &mut G) -> R {
    let text = hostile(g, ALPHA, 40);
    g.key(&text);
    g.nontrivial_if(text.contains('{'));
    g.note(|| format!("{text:?}"));
    let a = parse_stylesheet(&text);
    g.label_if(a.is_ok(), "accepted");
    if let Ok(s) = a {
        g.label_if(!s.rules.is_empty(), "accepted with rules");
        let th = tcss::types::Theme::new("t", true);
        let m = WidgetMeta { type_name: "Button", type_names: vec!["Button", "Label"], id: Some("x".into()), classes: vec!["x".into()], states: Default::default() };
        let st = compute_style(&m, &[m.clone()], &s, &th);
        let o = observe(&st);
        ensure!(st.opacity >= 0.0 && st.opacity <= 1.0 && st.text_opacity >= 0.0 && st.text_opacity <= 1.0, "opacity out of range: {o:?}");
        let b = parse_stylesheet(&text).map_err(|e| Fail(format!("second parse fails: {e:?}")))?;
        ensure!(observe(&compute_style(&m, &[m.clone()], &b, &th)) == o, "two parses of the same text disagree");
    }
    Ok(())
}

/// Corrupt a well-formed sheet: no panic, and never a different meaning for an untouched earlier sheet prefix.
fn mutated(g: &mut G) -> R {
    let th = theme(g);
    let mut text = String::new();
    for _ in 0..g.usize(1, 3) {
        let decls = g.vec(0, 4, |g| decl(g, &th));
        let nested = if g.bool() { format!("&:hover {{ {} }}", body_text(g, &decls, true)) } else { String::new() };
        text.push_str(&format!("{} {{ {}{}; {nested} }}\n", g.pick(TYPES), body_text(g, &decls, true), ""));
    }
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..g.usize(1, 4) {
        if chars.is_empty() {
            break;
        }
        let i = g.usize(0, chars.len() - 1);
        match g.below(4) {
            0 => {
                chars.remove(i);
            }
            1 => chars.insert(i, *g.of(&['{', '}', ';', ':', '$', '(', ')', '%', '#', '&', '"', '\'', '/', '*', '\n', 'é', '-', '9'])),
            2 => chars.truncate(i),
            _ => {
                let j = g.usize(0, chars.len() - 1);
                chars.swap(i, j);
            }
        }
    }
    let text: String = chars.into_iter().collect();
    g.key(&text);
    g.nontrivial_if(true);
    g.note(|| format!("{text:?}"));
    if let Ok(s) = parse_stylesheet(&text) {
        g.label("accepted");
        let _ = observe(&compute_style(&widget(), &[], &s, &th));
    }
    Ok(())
}

pub const P: Property = Property {
    id: "C03",
    rule: "meaning: at least two declarations with random layout/comments; refused: a known property with a wrong value; total/mutated: text containing a block",
    assumptions: &["selectors of equal specificity are used in 'meaning' so that only parsing and source order matter (C05 covers the cascade)"],
    parts: &[
        Part { name: "meaning", quick: 360_000, thorough: 2_400_000, f: meaning },
        Part { name: "refused", quick: 240_000, thorough: 1_600_000, f: refused },
        Part { name: "total", quick: 1_200_000, thorough: 8_000_000, f: total },
        Part { name: "mutated", quick: 360_000, thorough: 2_400_000, f: mutated },
    ],
};
