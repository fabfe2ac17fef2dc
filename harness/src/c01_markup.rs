//! C01: markup parsing against a stack-machine model.
use crate::common::*;
use crate::csscolors::CSS;
use crate::engine::*;
use crate::{ensure, ensure_eq, fail};
use rich::ParsedMarkup;
use std::collections::BTreeMap;
use textual::content::Content;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct MStyle {
    pub fg: Option<(u8, u8, u8)>,
    pub bg: Option<(u8, u8, u8)>,
    pub on: [bool; 7], // bold dim italic underline strike reverse blink
}

#[derive(Clone, Debug)]
pub enum Tok {
    Text(String),
    Open { src: String, words: Vec<String>, style: MStyle, meta: Option<(String, String)> },
    Close { src: String, name: Option<String> },
}

pub fn color(g: &mut G) -> (String, (u8, u8, u8)) {
    match g.weighted(&[4, 2, 2, 1, 1]) {
        0 => {
            let (n, r, gg, b) = *g.of(CSS);
            (rand_case(g, n), (r, gg, b))
        }
        1 => {
            let (r, gg, b) = (g.u8(), g.u8(), g.u8());
            (rand_case(g, &format!("#{r:02x}{gg:02x}{b:02x}")), (r, gg, b))
        }
        2 => {
            let (r, gg, b) = (g.below(16) as u8, g.below(16) as u8, g.below(16) as u8);
            (rand_case(g, &format!("#{r:x}{gg:x}{b:x}")), (r * 17, gg * 17, b * 17))
        }
        3 => {
            let (r, gg, b) = (g.u8(), g.u8(), g.u8());
            (format!("rgb({r},{gg},{b})"), (r, gg, b))
        }
        _ => {
            let t = [("bright_black", (128, 128, 128)), ("bright_red", (255, 85, 85)), ("bright_cyan", (85, 255, 255)), ("bright_white", (255, 255, 255))];
            let (n, c) = *g.of(&t);
            (n.to_string(), c)
        }
    }
}

const MODS: &[(&str, usize)] = &[
    ("bold", 0), ("b", 0), ("dim", 1), ("d", 1), ("italic", 2), ("i", 2), ("underline", 3), ("u", 3),
    ("strike", 4), ("s", 4), ("strikethrough", 4), ("reverse", 5), ("r", 5), ("blink", 6),
];

fn sp(g: &mut G) -> &'static str {
    if g.chance(1, 8) { "  " } else { " " }
}

pub fn open_tag(g: &mut G) -> Tok {
    match g.weighted(&[8, 1, 1]) {
        0 => {
            let n = g.usize(1, 4);
            let mut style = MStyle::default();
            let mut words = vec![];
            let mut src = String::new();
            for i in 0..n {
                if i > 0 {
                    src.push_str(sp(g));
                }
                match g.weighted(&[3, 2, 1]) {
                    0 => {
                        let (w, k) = *g.of(MODS);
                        let w = rand_case(g, w);
                        style.on[k] = true;
                        src.push_str(&w);
                        words.push(w.to_lowercase());
                    }
                    1 => {
                        let (w, c) = color(g);
                        style.fg = Some(c);
                        src.push_str(&w);
                        words.push(w.to_lowercase());
                    }
                    _ => {
                        let (w, c) = color(g);
                        style.bg = Some(c);
                        src.push_str("on");
                        src.push_str(sp(g));
                        src.push_str(&w);
                        words.push("on".into());
                        words.push(w.to_lowercase());
                    }
                }
            }
            Tok::Open { src, words, style, meta: None }
        }
        1 => {
            let k = g.pick(&["click", "hover", "x"]);
            // brackets inside an action belong to it as long as they balance
            let v = g.pick(&["app.quit", "bell", "app.go('a')", "toggle(1, 2)", "a=b", "set(\"é世\")", "", "pick([1, 2])", "at[0]", "f([[é], []])", "[x]=[y]", "a/b", "go('#f00 on')"]).to_string();
            let src = if g.chance(1, 4) { format!("@{k}{}={}{v}", sp(g), sp(g)) } else { format!("@{k}={v}") };
            Tok::Open { words: src.to_lowercase().split_whitespace().map(str::to_string).collect(), src, style: MStyle::default(), meta: Some((format!("@{k}"), v)) }
        }
        _ => {
            let u = g.pick(&["https://example.com", "http://a.b/c?d=e&f=1", "x", "https://é.com/世"]);
            let src = match g.below(3) {
                0 => format!("link={u}"),
                1 => format!("link='{u}'"),
                _ => format!("link=\"{u}\""),
            };
            Tok::Open { words: vec![src.to_lowercase()], src, style: MStyle::default(), meta: Some(("@link".into(), u.into())) }
        }
    }
}

pub fn text_tok(g: &mut G, nl: bool) -> String {
    let n = g.usize(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        match g.weighted(&[8, 2, 3, if nl { 2 } else { 0 }]) {
            0 => s.push_str(grapheme(g)),
            1 => s.push_str(g.pick(MARKUPPY)),
            2 => s.push(' '),
            _ => s.push('\n'),
        }
    }
    s
}

/// Escape text as the documented syntax requires; `]` may be written either way.
fn escape(g: &mut G, t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '[' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            ']' => {
                if g.bool() {
                    o.push('\\');
                }
                o.push(']');
            }
            c => o.push(c),
        }
    }
    o
}

pub struct Doc {
    pub src: String,
    pub text: String,
    /// per byte of `text`
    pub at: Vec<(MStyle, BTreeMap<String, String>)>,
    pub max_depth: usize,
}

/// A well-formed document with its meaning computed by a stack machine.
pub fn doc(g: &mut G, max_toks: usize, nl: bool) -> Doc {
    struct Open {
        words: Vec<String>,
        src: String,
        style: MStyle,
        meta: Option<(String, String)>,
    }
    let mut stack: Vec<Open> = vec![];
    let (mut src, mut text, mut at) = (String::new(), String::new(), vec![]);
    let mut max_depth = 0;
    let n = g.usize(1, max_toks);
    for _ in 0..n {
        match g.weighted(&[5, 4, 3]) {
            0 => {
                let t = text_tok(g, nl);
                src.push_str(&escape(g, &t));
                let mut st = MStyle::default();
                let mut meta = BTreeMap::new();
                for o in &stack {
                    if o.style.fg.is_some() {
                        st.fg = o.style.fg;
                    }
                    if o.style.bg.is_some() {
                        st.bg = o.style.bg;
                    }
                    for k in 0..7 {
                        st.on[k] |= o.style.on[k];
                    }
                    if let Some((k, v)) = &o.meta {
                        meta.insert(k.clone(), v.clone());
                    }
                }
                for _ in 0..t.len() {
                    at.push((st.clone(), meta.clone()));
                }
                text.push_str(&t);
            }
            1 => {
                if let Tok::Open { src: s, words, style, meta } = open_tag(g) {
                    let pad = |g: &mut G| if g.chance(1, 12) { " " } else { "" };
                    src.push_str(&format!("[{}{s}{}]", pad(g), pad(g)));
                    stack.push(Open { words, src: s, style, meta });
                    max_depth = max_depth.max(stack.len());
                }
            }
            _ => {
                let named = g.chance(1, 3) && !stack.is_empty();
                if named {
                    // close by one of the words (or the whole content) of some open tag
                    let k = g.usize(0, stack.len() - 1);
                    let whole = g.chance(1, 4);
                    let name = if whole || stack[k].meta.is_some() { stack[k].src.clone() } else { let i = g.usize(0, stack[k].words.len() - 1); stack[k].words[i].clone() };
                    let name = name.trim().to_string();
                    let disp = if whole { name.clone() } else { rand_case(g, &name) };
                    let low = name.to_lowercase();
                    src.push_str(&format!("[/{disp}]"));
                    while let Some(o) = stack.pop() {
                        let content = o.src.to_lowercase();
                        // (its first words also name a tag)
                        if content == low || o.words.contains(&low) || content.starts_with(&format!("{low} ")) {
                            break;
                        }
                    }
                } else {
                    src.push_str("[/]");
                    stack.pop();
                }
            }
        }
    }
    Doc { src, text, at, max_depth }
}

fn rich_to_m(s: &rich::Style) -> MStyle {
    MStyle {
        fg: s.fg.as_ref().map(|c| c.to_rgb()),
        bg: s.bg.as_ref().map(|c| c.to_rgb()),
        on: [s.text.bold, s.text.dim, s.text.italic, s.text.underline, s.text.strike, s.text.reverse, s.text.blink],
    }
}

fn model(g: &mut G) -> R {
    let d = doc(g, 14, true);
    g.key(&d.src);
    g.note(|| format!("markup {:?}\nexpected text {:?}", d.src, d.text));
    g.nontrivial_if(d.max_depth >= 2 && !d.text.is_empty());
    g.label_if(d.max_depth >= 2, "nested");
    g.label_if(d.text.contains('\n'), "multi-line");
    let p = match ParsedMarkup::parse(&d.src) {
        Ok(p) => p,
        Err(e) => fail!("well-formed markup rejected: {e}"),
    };
    ensure_eq!(p.text(), d.text, "plain text is the input minus tags");
    for s in p.spans() {
        ensure!(s.start < s.end && s.end <= d.text.len() && d.text.is_char_boundary(s.start) && d.text.is_char_boundary(s.end), "span {}..{} outside text", s.start, s.end);
    }
    for (i, (st, _)) in d.at.iter().enumerate() {
        ensure_eq!(rich_to_m(&p.style_at(i)), *st, "style at byte {i} of {:?}", d.text);
    }
    // segments tile the text
    let mut pos = 0;
    for (t, st, meta) in p.segments() {
        ensure!(!t.is_empty(), "empty segment");
        ensure!(d.text[pos..].starts_with(t), "segments do not tile the text at {pos}: {t:?}");
        for i in pos..pos + t.len() {
            ensure_eq!(rich_to_m(&st), d.at[i].0, "segment style at byte {i}");
            ensure_eq!(meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>(), d.at[i].1, "segment meta at byte {i}");
        }
        pos += t.len();
    }
    ensure_eq!(pos, d.text.len(), "segments cover the text");
    // what widgets draw
    let c = Content::from_markup(&d.src).map_err(|e| Fail(format!("{e}")))?;
    ensure_eq!(c.text(), d.text, "content text");
    let lines = c.lines();
    let want: Vec<&str> = d.text.split('\n').collect();
    ensure_eq!(lines.len(), want.len(), "one strip per line");
    let mut base = 0;
    for (l, w) in lines.iter().zip(&want) {
        let mut off = base;
        let mut txt = String::new();
        for seg in l.segments() {
            txt.push_str(seg.text());
            let st = seg.style().cloned().unwrap_or_default();
            let m = MStyle {
                fg: st.fg.as_ref().map(|c| (c.r, c.g, c.b)),
                bg: st.bg.as_ref().map(|c| (c.r, c.g, c.b)),
                on: [st.bold, st.dim, st.italic, st.underline, st.strike, st.reverse, false],
            };
            for i in off..off + seg.text().len() {
                let mut e = d.at[i].0.clone();
                e.on[6] = false;
                ensure_eq!(m, e, "drawn style at byte {i} of {:?}", d.text);
                for (k, v) in &d.at[i].1 {
                    ensure_eq!(seg.get_meta(k), Some(v.as_str()), "drawn meta {k} at byte {i}");
                }
            }
            off += seg.text().len();
        }
        ensure_eq!(txt.as_str(), *w, "line text");
        base += w.len() + 1;
    }
    Ok(())
}

fn escape_roundtrip(g: &mut G) -> R {
    let t = hostile(g, &["[", "]", "\\", "/", "b", "[/]", "[red]", " ", "\n"], 16);
    g.key(&t);
    let s = escape(g, &t);
    g.note(|| format!("text {t:?} escaped {s:?}"));
    g.nontrivial_if(t.contains('[') || t.contains('\\'));
    let p = ParsedMarkup::parse(&s).map_err(|e| Fail(format!("escaped text rejected: {e}")))?;
    ensure_eq!(p.text(), t, "escaped text round trip");
    ensure!(p.is_plain(), "escaped text has spans: {:?}", p.spans());
    Ok(())
}

fn hostile_input(g: &mut G) -> R {
    let s = hostile(g, &["[", "]", "[/", "[/]", "\\", "bold", "red", "on ", "on", "#", "f", "é1", "rgb(", "rgb(1,2,3)", ")", "@click=", "link=", "'", " ", "/", "x", "\n", "not"], 14);
    g.key(&s);
    g.note(|| format!("markup {s:?}"));
    g.nontrivial_if(s.contains('['));
    match ParsedMarkup::parse(&s) {
        Ok(p) => {
            g.label("accepted");
            let t = p.text().to_string();
            for sp in p.spans() {
                ensure!(sp.start < sp.end && sp.end <= t.len() && t.is_char_boundary(sp.start) && t.is_char_boundary(sp.end), "span {}..{} of text len {}", sp.start, sp.end, t.len());
            }
            let joined: String = p.segments().map(|(x, _, _)| x).collect();
            ensure_eq!(joined, t, "segments tile the text");
            ensure!(t.len() <= s.len(), "text longer than its markup");
            let c = Content::from_markup(&s).map_err(|e| Fail(format!("Content disagrees: {e}")))?;
            let l: Vec<String> = c.lines().iter().map(|x| x.text()).collect();
            ensure_eq!(l.join("\n"), t, "content lines");
            // tag-free input is literal
            if !s.contains('[') && !s.contains('\\') {
                ensure_eq!(t, s, "text without brackets or backslashes is literal");
            }
        }
        Err(_) => {
            g.label("rejected");
            ensure!(s.contains('[') || s.contains('\\'), "plain text rejected");
            ensure!(Content::from_markup(&s).is_err(), "Content accepted what the parser rejects");
        }
    }
    Ok(())
}

pub const P: Property = Property {
    id: "C01",
    rule: "Documents are generated as token sequences (text with wide/combining/bracket characters, style, link and action tags, anonymous and named closes) with the meaning computed by a stack-machine model; plus escaped arbitrary text and hostile character soup. Non-trivial: nesting depth >= 2 with text (model), text containing '[' or a backslash (escape), input containing '[' (hostile). Distinct by source text.",
    assumptions: &["a close tag naming a style that is not open is outside the domain", "colour names are the CSS list plus the documented bright_* names"],
    parts: &[
        Part { name: "model", quick: 1_200_000, thorough: 12_000_000, f: model },
        Part { name: "escape", quick: 600_000, thorough: 6_000_000, f: escape_roundtrip },
        Part { name: "hostile", quick: 3_000_000, thorough: 40_000_000, f: hostile_input },
    ],
};
