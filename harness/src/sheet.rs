//! Style-sheet model shared by C03..C08: a generator of declarations that knows the longhand values each
//! one sets, a selector AST with its own matcher, and text rendering with random layout and comments.
use crate::common::*;
use crate::csscolors::CSS;
use crate::engine::G;
use std::collections::BTreeMap;
use tcss::parser::cascade::{WidgetMeta, WidgetStates};
use tcss::types::geometry::Unit;
use tcss::types::*;

pub type Obs = BTreeMap<&'static str, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Set(String),
    /// text-style flags accumulate across rules
    Or(u16),
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub prop: &'static str,
    /// value tokens; whitespace (or comments) may stand between them
    pub tokens: Vec<String>,
    pub assigns: Vec<(&'static str, Val)>,
}

fn d<T: std::fmt::Debug>(v: T) -> String {
    format!("{v:?}")
}

const STYLE_NAMES: &[&str] = &["bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline"];

pub fn style_bits(s: &TextStyle) -> u16 {
    [s.bold, s.dim, s.italic, s.underline, s.underline2, s.blink, s.blink2, s.reverse, s.strike, s.overline].iter().enumerate().map(|(i, b)| (*b as u16) << i).sum()
}

fn style_key(s: &TextStyle) -> String {
    format!("style:{}:{:?}", style_bits(s), s.theme_var)
}

fn color_key(c: &RgbaColor) -> String {
    format!("{:02x}{:02x}{:02x}/{:.4}/{:?}/{}/{:?}", c.r, c.g, c.b, c.a, c.ansi, c.auto, c.theme_var)
}
fn oc(c: &Option<RgbaColor>) -> String {
    c.as_ref().map_or("-".into(), color_key)
}
fn edge(e: &BorderEdge) -> String {
    format!("{:?} {}", e.kind, oc(&e.color))
}
fn sc(s: &Scalar) -> String {
    format!("{}{:?}", s.value, s.unit)
}
fn osc(s: &Option<Scalar>) -> String {
    s.as_ref().map_or("-".into(), sc)
}

/// Everything a computed style tells a renderer, by longhand.
pub fn observe(s: &ComputedStyle) -> Obs {
    let mut o = Obs::new();
    o.insert("color", oc(&s.color));
    o.insert("auto_color", d(s.auto_color));
    o.insert("background", oc(&s.background));
    o.insert("tint", oc(&s.tint));
    o.insert("background-tint", oc(&s.background_tint));
    for (k, v) in [("width", &s.width), ("height", &s.height), ("min-width", &s.min_width), ("max-width", &s.max_width), ("min-height", &s.min_height), ("max-height", &s.max_height), ("offset-x", &s.offset_x), ("offset-y", &s.offset_y)] {
        o.insert(k, osc(v));
    }
    for (k, v) in [("margin-top", &s.margin.top), ("margin-right", &s.margin.right), ("margin-bottom", &s.margin.bottom), ("margin-left", &s.margin.left), ("padding-top", &s.padding.top), ("padding-right", &s.padding.right), ("padding-bottom", &s.padding.bottom), ("padding-left", &s.padding.left)] {
        o.insert(k, sc(v));
    }
    for (k, v) in [("border-top", &s.border.top), ("border-right", &s.border.right), ("border-bottom", &s.border.bottom), ("border-left", &s.border.left), ("outline-top", &s.outline.top), ("outline-right", &s.outline.right), ("outline-bottom", &s.outline.bottom), ("outline-left", &s.outline.left)] {
        o.insert(k, edge(v));
    }
    o.insert("box-sizing", d(s.box_sizing));
    o.insert("border-title-align", d(s.border_title_align));
    o.insert("border-subtitle-align", d(s.border_subtitle_align));
    o.insert("border-title-color", oc(&s.border_title_color));
    o.insert("border-subtitle-color", oc(&s.border_subtitle_color));
    o.insert("border-title-background", oc(&s.border_title_background));
    o.insert("border-subtitle-background", oc(&s.border_subtitle_background));
    o.insert("border-title-style", style_key(&s.border_title_style));
    o.insert("border-subtitle-style", style_key(&s.border_subtitle_style));
    o.insert("text-align", d(s.text_align));
    o.insert("text-opacity", format!("{:.4}", s.text_opacity));
    o.insert("text-style", style_key(&s.text_style));
    o.insert("text-overflow", d(s.text_overflow));
    o.insert("text-wrap", d(s.text_wrap));
    o.insert("line-pad", d(s.line_pad));
    o.insert("content-align-horizontal", d(s.content_align_horizontal));
    o.insert("content-align-vertical", d(s.content_align_vertical));
    o.insert("align-horizontal", d(s.align_horizontal));
    o.insert("align-vertical", d(s.align_vertical));
    o.insert("display", d(s.display));
    o.insert("visibility", d(s.visibility));
    o.insert("opacity", format!("{:.4}", s.opacity));
    o.insert("layout", d(s.layout));
    o.insert("position", d(s.position));
    o.insert("dock", d(s.dock));
    o.insert("layers", d(&s.layers));
    o.insert("layer", d(&s.layer));
    o.insert("grid-size-columns", d(s.grid.columns));
    o.insert("grid-size-rows", d(s.grid.rows));
    o.insert("grid-columns", s.grid.column_widths.iter().map(sc).collect::<Vec<_>>().join(" "));
    o.insert("grid-rows", s.grid.row_heights.iter().map(sc).collect::<Vec<_>>().join(" "));
    o.insert("grid-gutter-v", sc(&s.grid.gutter.0));
    o.insert("grid-gutter-h", sc(&s.grid.gutter.1));
    o.insert("column-span", d(s.grid_placement.column_span));
    o.insert("row-span", d(s.grid_placement.row_span));
    o.insert("overflow-x", d(s.overflow_x));
    o.insert("overflow-y", d(s.overflow_y));
    let b = &s.scrollbar;
    o.insert("scrollbar-color", oc(&b.color));
    o.insert("scrollbar-color-hover", oc(&b.color_hover));
    o.insert("scrollbar-color-active", oc(&b.color_active));
    o.insert("scrollbar-background", oc(&b.background));
    o.insert("scrollbar-background-hover", oc(&b.background_hover));
    o.insert("scrollbar-background-active", oc(&b.background_active));
    o.insert("scrollbar-corner-color", oc(&b.corner_color));
    o.insert("scrollbar-size-horizontal", d(b.size.horizontal));
    o.insert("scrollbar-size-vertical", d(b.size.vertical));
    o.insert("scrollbar-gutter", d(b.gutter));
    o.insert("scrollbar-visibility", d(b.visibility));
    o.insert("link-color", oc(&s.link.color));
    o.insert("link-background", oc(&s.link.background));
    o.insert("link-color-hover", oc(&s.link.color_hover));
    o.insert("link-background-hover", oc(&s.link.background_hover));
    o.insert("link-style", style_key(&s.link.style));
    o.insert("link-style-hover", style_key(&s.link.style_hover));
    o.insert("hatch", s.hatch.as_ref().map_or("-".into(), |h| format!("{:?} {} {:.4}", h.pattern, color_key(&h.color), h.opacity)));
    o.insert("keyline", format!("{:?} {}", s.keyline.style, color_key(&s.keyline.color)));
    o
}

pub fn apply(o: &mut Obs, decl: &Decl) {
    for (k, v) in &decl.assigns {
        match v {
            Val::Set(s) => {
                o.insert(k, s.clone());
            }
            Val::Or(bits) => {
                let old: u16 = o[k].split(':').nth(1).unwrap().parse().unwrap();
                o.insert(k, format!("style:{}:None", old | bits));
            }
        }
    }
}

pub fn diff(got: &Obs, want: &Obs) -> Option<String> {
    for (k, w) in want {
        if got.get(k) != Some(w) {
            return Some(format!("{k}: got {:?}, expected {w:?}", got.get(k)));
        }
    }
    None
}

// ---- values -------------------------------------------------------------------------------------------

pub fn scalar(g: &mut G, nonneg: bool) -> (String, Scalar) {
    if g.chance(1, 8) {
        return ("auto".into(), Scalar::AUTO);
    }
    scalar_num(g, nonneg)
}

pub fn scalar_num(g: &mut G, nonneg: bool) -> (String, Scalar) {
    let whole = g.below(300);
    let (mut t, mut v) = (whole.to_string(), whole as f64);
    if g.chance(1, 4) {
        let f = g.below(100);
        t = format!("{whole}.{f:02}");
        v = t.parse().unwrap();
    }
    if !nonneg && g.chance(1, 6) {
        t.insert(0, '-');
        v = -v;
    }
    let (u, unit) = *g.of(&[("", Unit::Cells), ("%", Unit::Percent), ("fr", Unit::Fraction), ("w", Unit::Width), ("h", Unit::Height), ("vw", Unit::ViewWidth), ("vh", Unit::ViewHeight)]);
    (format!("{t}{u}"), Scalar { value: v, unit })
}

/// A literal or theme colour: tokens and the colour it must resolve to.
pub fn color(g: &mut G, theme: &Theme) -> (Vec<String>, RgbaColor) {
    let mut names: Vec<&String> = theme.colors.keys().collect();
    names.sort();
    let k = g.weighted(&[3, 3, 2, 2, 1, if names.is_empty() { 0 } else { 4 }]);
    let (t, mut c) = match k {
        0 => {
            let (n, r, gg, b) = *g.of(CSS);
            (rand_case(g, n), RgbaColor::rgb(r, gg, b))
        }
        1 => {
            let (r, gg, b) = (g.u8(), g.u8(), g.u8());
            (rand_case(g, &format!("#{r:02x}{gg:02x}{b:02x}")), RgbaColor::rgb(r, gg, b))
        }
        2 => {
            let (r, gg, b) = (g.below(16) as u8, g.below(16) as u8, g.below(16) as u8);
            (format!("#{r:x}{gg:x}{b:x}"), RgbaColor::rgb(r * 17, gg * 17, b * 17))
        }
        3 => {
            let (r, gg, b) = (g.u8(), g.u8(), g.u8());
            let sp = g.pick(&["", " "]);
            if g.bool() {
                (format!("rgb({r},{sp}{gg},{sp}{b})"), RgbaColor::rgb(r, gg, b))
            } else {
                let a = g.below(101);
                (format!("rgba({r},{sp}{gg},{sp}{b},{sp}{}.{:02})", a / 100, a % 100), RgbaColor::rgba(r, gg, b, a as f32 / 100.0))
            }
        }
        4 => ("auto".into(), RgbaColor::auto(1.0)),
        _ => {
            let n = (*g.of(&names)).clone();
            let c = theme.colors[&n].clone();
            (format!("${n}"), c)
        }
    };
    let mut tokens = vec![t];
    if g.chance(1, 4) {
        let p = g.below(100);
        c.a = p as f32 / 100.0;
        tokens.push(format!("{p}%"));
    }
    (tokens, c)
}

fn kw<T: Copy + std::fmt::Debug>(g: &mut G, opts: &[(&str, T)]) -> (String, T) {
    let (t, v) = *g.of(opts);
    (rand_case(g, t), v)
}

fn border(g: &mut G, theme: &Theme) -> (Vec<String>, BorderEdge) {
    use BorderKind::*;
    let (t, kind) = kw(g, &[("none", None), ("hidden", None), ("ascii", Ascii), ("blank", Blank), ("block", Block), ("dashed", Dashed), ("double", Double), ("heavy", Heavy), ("hkey", Hkey), ("inner", Inner), ("outer", Outer), ("panel", Panel), ("round", Round), ("solid", Solid), ("tall", Tall), ("thick", Thick), ("vkey", Vkey), ("wide", Wide)]);
    match g.below(3) {
        0 => (vec![t], BorderEdge { kind, color: Option::None }),
        1 => {
            let (ct, c) = color(g, theme);
            let mut v = vec![t];
            v.extend(ct);
            (v, BorderEdge { kind, color: Some(c) })
        }
        _ => {
            let (ct, c) = color(g, theme);
            let mut v = ct;
            v.push(t);
            (v, BorderEdge { kind, color: Some(c) })
        }
    }
}

fn text_style(g: &mut G, theme: &Theme) -> (Vec<String>, u16) {
    let mut names: Vec<&String> = theme.styles.keys().collect();
    names.sort();
    if !names.is_empty() && g.chance(1, 4) {
        let n = (*g.of(&names)).clone();
        let bits = style_bits(&theme.styles[&n]);
        return (vec![format!("${n}")], bits);
    }
    if g.chance(1, 6) {
        return (vec!["none".into()], 0);
    }
    let n = g.usize(1, 3);
    let mut bits = 0;
    let mut t = vec![];
    for _ in 0..n {
        let i = g.usize(0, STYLE_NAMES.len() - 1);
        bits |= 1 << i;
        t.push(rand_case(g, STYLE_NAMES[i]));
    }
    (t, bits)
}

const EDGES4: [[&str; 4]; 2] = [["margin-top", "margin-right", "margin-bottom", "margin-left"], ["padding-top", "padding-right", "padding-bottom", "padding-left"]];
const BORDER4: [[&str; 4]; 2] = [["border-top", "border-right", "border-bottom", "border-left"], ["outline-top", "outline-right", "outline-bottom", "outline-left"]];
const COLORS: &[&str] = &[
    "background", "tint", "background-tint", "scrollbar-color", "scrollbar-color-hover", "scrollbar-color-active", "scrollbar-background", "scrollbar-background-hover", "scrollbar-background-active",
    "scrollbar-corner-color", "link-color", "link-color-hover", "link-background", "link-background-hover", "border-title-color", "border-subtitle-color", "border-title-background", "border-subtitle-background",
];
const SCALARS: &[&str] = &["width", "height", "min-width", "max-width", "min-height", "max-height", "offset-x", "offset-y"];

/// A random declaration. `theme` supplies `$name` references (empty: none are generated).
pub fn decl(g: &mut G, theme: &Theme) -> Decl {
    let set = |k: &'static str, v: String| (k, Val::Set(v));
    let mk = |prop: &'static str, tokens: Vec<String>, assigns: Vec<(&'static str, Val)>| Decl { prop, tokens, assigns };
    let one = |prop: &'static str, t: String, v: String| Decl { prop, tokens: vec![t], assigns: vec![(prop, Val::Set(v))] };
    match g.weighted(&[3, 6, 6, 6, 4, 4, 3, 2, 12, 2, 2, 4, 3, 3]) {
        0 => {
            let (t, c) = color(g, theme);
            mk("color", t, vec![set("color", color_key(&c)), set("auto_color", d(c.auto))])
        }
        1 => {
            let p = *g.of(COLORS);
            let (t, c) = color(g, theme);
            mk(p, t, vec![set(p, color_key(&c))])
        }
        2 => {
            let p = *g.of(SCALARS);
            let (t, s) = scalar(g, false);
            one(p, t, sc(&s))
        }
        3 => {
            // spacing shorthands
            let w = g.usize(0, 1);
            let p = ["margin", "padding"][w];
            let n = *g.of(&[1usize, 2, 4]);
            let v: Vec<(String, Scalar)> = (0..n).map(|_| scalar_num(g, false)).collect();
            let idx: [usize; 4] = match n {
                1 => [0, 0, 0, 0],
                2 => [0, 1, 0, 1],
                _ => [0, 1, 2, 3],
            };
            mk(p, v.iter().map(|x| x.0.clone()).collect(), (0..4).map(|i| set(EDGES4[w][i], sc(&v[idx[i]].1))).collect())
        }
        4 => {
            let w = g.usize(0, 1);
            let i = g.usize(0, 3);
            let (t, s) = scalar(g, false);
            one(EDGES4[w][i], t, sc(&s))
        }
        5 => {
            let w = g.usize(0, 1);
            let p = ["border", "outline"][w];
            let (t, e) = border(g, theme);
            mk(p, t, (0..4).map(|i| set(BORDER4[w][i], edge(&e))).collect())
        }
        6 => {
            let w = g.usize(0, 1);
            let i = g.usize(0, 3);
            let (t, e) = border(g, theme);
            mk(BORDER4[w][i], t, vec![set(BORDER4[w][i], edge(&e))])
        }
        7 => {
            let p = *g.of(&["offset", "grid-gutter"]);
            let (t1, a) = scalar_num(g, false);
            let (k1, k2) = if p == "offset" { ("offset-x", "offset-y") } else { ("grid-gutter-v", "grid-gutter-h") };
            if p == "grid-gutter" && g.bool() {
                return mk(p, vec![t1], vec![set(k1, sc(&a)), set(k2, sc(&a))]);
            }
            let (t2, b) = scalar_num(g, false);
            mk(p, vec![t1, t2], vec![set(k1, sc(&a)), set(k2, sc(&b))])
        }
        8 => {
            macro_rules! k {
                ($p:expr, $($t:expr => $v:expr),*) => {{ let (t, v) = kw(g, &[$(($t, $v)),*]); one($p, t, d(v)) }};
            }
            match g.below(18) {
                0 => k!("text-align", "left" => TextAlign::Left, "center" => TextAlign::Center, "right" => TextAlign::Right, "justify" => TextAlign::Justify, "start" => TextAlign::Start, "end" => TextAlign::End),
                1 => k!("text-overflow", "clip" => TextOverflow::Clip, "fold" => TextOverflow::Fold, "ellipsis" => TextOverflow::Ellipsis),
                2 => k!("text-wrap", "wrap" => TextWrap::Wrap, "nowrap" => TextWrap::NoWrap),
                3 => k!("display", "block" => Display::Block, "none" => Display::None),
                4 => k!("visibility", "visible" => Visibility::Visible, "hidden" => Visibility::Hidden),
                5 => k!("position", "relative" => Position::Relative, "absolute" => Position::Absolute),
                6 => k!("box-sizing", "content-box" => BoxSizing::ContentBox, "border-box" => BoxSizing::BorderBox),
                7 => k!("dock", "top" => Some(Dock::Top), "bottom" => Some(Dock::Bottom), "left" => Some(Dock::Left), "right" => Some(Dock::Right)),
                8 => k!("scrollbar-gutter", "auto" => ScrollbarGutter::Auto, "stable" => ScrollbarGutter::Stable),
                9 => k!("scrollbar-visibility", "visible" => ScrollbarVisibility::Visible, "hidden" => ScrollbarVisibility::Hidden),
                10 => {
                    let (t, v) = *g.of(&[("vertical", Layout::Vertical), ("horizontal", Layout::Horizontal), ("grid", Layout::Grid)]);
                    one("layout", t.into(), d(v))
                }
                11 | 12 => {
                    let ov = &[("hidden", Overflow::Hidden), ("auto", Overflow::Auto), ("scroll", Overflow::Scroll)];
                    let (t, v) = kw(g, ov);
                    match g.below(4) {
                        0 => one("overflow-x", t, d(v)),
                        1 => one("overflow-y", t, d(v)),
                        2 => mk("overflow", vec![t], vec![set("overflow-x", d(v)), set("overflow-y", d(v))]),
                        _ => {
                            let (t2, v2) = kw(g, ov);
                            mk("overflow", vec![t, t2], vec![set("overflow-x", d(v)), set("overflow-y", d(v2))])
                        }
                    }
                }
                n => {
                    let hs = &[("left", AlignHorizontal::Left), ("center", AlignHorizontal::Center), ("right", AlignHorizontal::Right)];
                    let vs = &[("top", AlignVertical::Top), ("middle", AlignVertical::Middle), ("bottom", AlignVertical::Bottom)];
                    let (th, h) = kw(g, hs);
                    let (tv, v) = kw(g, vs);
                    match n {
                        13 => {
                            let p = *g.of(&["border-title-align", "border-subtitle-align", "content-align-horizontal", "align-horizontal"]);
                            one(p, th, d(h))
                        }
                        14 => {
                            let p = *g.of(&["content-align-vertical", "align-vertical"]);
                            one(p, tv, d(v))
                        }
                        15 | 16 => mk("align", vec![th, tv], vec![set("align-horizontal", d(h)), set("align-vertical", d(v))]),
                        _ => mk("content-align", vec![th, tv], vec![set("content-align-horizontal", d(h)), set("content-align-vertical", d(v))]),
                    }
                }
            }
        }
        9 => {
            let p = *g.of(&["opacity", "text-opacity"]);
            let n = g.below(140);
            if g.bool() {
                one(p, format!("{n}%"), format!("{:.4}", (n as f64 / 100.0).min(1.0)))
            } else {
                one(p, format!("{}.{:02}", n / 100, n % 100), format!("{:.4}", (n as f64 / 100.0).min(1.0)))
            }
        }
        10 => {
            let n = g.usize(1, 3);
            let names: Vec<String> = (0..n).map(|_| ident(g)).collect();
            if g.bool() {
                mk("layers", names.clone(), vec![set("layers", d(Some(&names)))])
            } else {
                one("layer", names[0].clone(), d(Some(&names[0])))
            }
        }
        11 => match g.below(6) {
            0 => {
                let c = g.below(9) as u16 + 1;
                if g.bool() {
                    let r = g.below(9) as u16 + 1;
                    mk("grid-size", vec![c.to_string(), r.to_string()], vec![set("grid-size-columns", d(Some(c))), set("grid-size-rows", d(Some(r)))])
                } else {
                    mk("grid-size", vec![c.to_string()], vec![set("grid-size-columns", d(Some(c))), set("grid-size-rows", d(None::<u16>))])
                }
            }
            1 | 2 => {
                let p = *g.of(&["grid-columns", "grid-rows"]);
                let v: Vec<_> = g.vec(1, 4, |g| scalar(g, true));
                mk(p, v.iter().map(|x| x.0.clone()).collect(), vec![set(p, v.iter().map(|x| sc(&x.1)).collect::<Vec<_>>().join(" "))])
            }
            3 => {
                let p = *g.of(&["column-span", "row-span", "line-pad"]);
                let n = g.below(70) as u16;
                one(p, n.to_string(), d(n))
            }
            4 => {
                let (a, b) = (g.below(9) as u16, g.below(9) as u16);
                if g.bool() {
                    mk("scrollbar-size", vec![a.to_string(), b.to_string()], vec![set("scrollbar-size-horizontal", d(a)), set("scrollbar-size-vertical", d(b))])
                } else {
                    mk("scrollbar-size", vec![a.to_string()], vec![set("scrollbar-size-horizontal", d(a)), set("scrollbar-size-vertical", d(a))])
                }
            }
            _ => {
                let p = *g.of(&["scrollbar-size-horizontal", "scrollbar-size-vertical"]);
                let n = g.below(9) as u16;
                one(p, n.to_string(), d(n))
            }
        },
        12 => {
            let p = *g.of(&["text-style", "border-title-style", "border-subtitle-style", "link-style", "link-style-hover"]);
            let (t, bits) = text_style(g, theme);
            let v = if p.starts_with("link") { Val::Set(format!("style:{bits}:None")) } else { Val::Or(bits) };
            mk(p, t, vec![(p, v)])
        }
        _ => {
            let (ct, c) = color(g, theme);
            if g.bool() {
                let (t, k) = kw(g, &[("none", KeylineStyle::None), ("thin", KeylineStyle::Thin), ("heavy", KeylineStyle::Heavy), ("double", KeylineStyle::Double)]);
                let mut v = vec![t];
                v.extend(ct);
                mk("keyline", v, vec![set("keyline", format!("{k:?} {}", color_key(&c)))])
            } else {
                let (t, pat) = if g.bool() {
                    let (t, p) = *g.of(&[("left", "Left"), ("right", "Right"), ("cross", "Cross"), ("horizontal", "Horizontal"), ("vertical", "Vertical")]);
                    (rand_case(g, t), p.to_string())
                } else {
                    let ch = *g.of(&['╱', '+', 'x', '/', '*', ';', '}', '{', '$', ':', '世', '.']);
                    (format!("\"{ch}\""), format!("Custom({ch:?})"))
                };
                let mut v = vec![t];
                v.extend(ct);
                mk("hatch", v, vec![set("hatch", format!("{pat} {} {:.4}", color_key(&c), 1.0))])
            }
        }
    }
}

// ---- selectors ----------------------------------------------------------------------------------------

pub const TYPES: &[&str] = &["Button", "Label", "Static", "Container", "Screen", "Grid", "Widget", "DOMNode"];
pub const IDS: &[&str] = &["ok", "main", "a1", "side-bar"];
pub const CLASSES: &[&str] = &["primary", "-on", "big_1", "x"];
pub const PSEUDO: &[(&str, WidgetStates)] = &[("focus", WidgetStates::FOCUS), ("hover", WidgetStates::HOVER), ("active", WidgetStates::ACTIVE), ("disabled", WidgetStates::DISABLED)];
pub const PSEUDO_THEME: &[&str] = &["dark", "light", "ansi", "nocolor"];

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    Type(&'static str),
    Any,
    Id(&'static str),
    Class(&'static str),
    Pseudo(&'static str),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Compound(pub Vec<Simple>);

/// Left to right; `comb[i]` joins `parts[i]` and `parts[i+1]` (true: child).
#[derive(Clone, Debug)]
pub struct Complex {
    pub parts: Vec<Compound>,
    pub child: Vec<bool>,
}

impl Simple {
    pub fn text(&self) -> String {
        match self {
            Simple::Type(t) => t.to_string(),
            Simple::Any => "*".into(),
            Simple::Id(i) => format!("#{i}"),
            Simple::Class(c) => format!(".{c}"),
            Simple::Pseudo(p) => format!(":{p}"),
        }
    }
    fn matches(&self, m: &WidgetMeta, theme: &Theme) -> bool {
        match self {
            Simple::Any => true,
            Simple::Type(t) => {
                if m.type_names.is_empty() {
                    m.type_name == *t
                } else {
                    m.type_names.contains(t)
                }
            }
            Simple::Id(i) => m.id.as_deref() == Some(*i),
            Simple::Class(c) => m.classes.iter().any(|x| x == c),
            Simple::Pseudo(p) => match *p {
                "dark" => theme.is_dark,
                "light" => !theme.is_dark,
                "ansi" => theme.name.contains("ansi"),
                "nocolor" => theme.name.contains("nocolor") || theme.name.contains("no-color"),
                p => PSEUDO.iter().any(|(n, f)| *n == p && m.states.contains(*f)),
            },
        }
    }
}

impl Compound {
    pub fn text(&self) -> String {
        self.0.iter().map(|s| s.text()).collect()
    }
    fn matches(&self, m: &WidgetMeta, theme: &Theme) -> bool {
        self.0.iter().all(|s| s.matches(m, theme))
    }
}

impl Complex {
    pub fn spec(&self) -> (u32, u32, u32) {
        let mut r = (0, 0, 0);
        for s in self.parts.iter().flat_map(|c| &c.0) {
            match s {
                Simple::Id(_) => r.0 += 1,
                Simple::Class(_) | Simple::Pseudo(_) => r.1 += 1,
                Simple::Type(_) => r.2 += 1,
                Simple::Any => {}
            }
        }
        r
    }
    /// Reference matcher: forward from the root, the set of chain positions at which each prefix can end.
    pub fn matches(&self, widget: &WidgetMeta, ancestors: &[WidgetMeta], theme: &Theme) -> bool {
        let chain: Vec<&WidgetMeta> = ancestors.iter().rev().chain(std::iter::once(widget)).collect();
        let n = chain.len();
        let mut can: Vec<bool> = (0..n).map(|i| self.parts[0].matches(chain[i], theme)).collect();
        for k in 1..self.parts.len() {
            let prev = can.clone();
            for i in 0..n {
                let reach = if self.child[k - 1] { i > 0 && prev[i - 1] } else { prev[..i].iter().any(|b| *b) };
                can[i] = reach && self.parts[k].matches(chain[i], theme);
            }
        }
        can[n - 1]
    }
    pub fn text(&self, g: &mut G) -> String {
        let mut s = self.parts[0].text();
        for (i, p) in self.parts[1..].iter().enumerate() {
            if self.child[i] {
                let a = g.pick(&[" ", "", "\n", "  "]);
                let b = g.pick(&[" ", "", "\n"]);
                s.push_str(&format!("{a}>{b}"));
            } else {
                s.push_str(g.pick(&[" ", "  ", "\n", "\t"]));
            }
            s.push_str(&p.text());
        }
        s
    }
}

pub fn compound(g: &mut G) -> Compound {
    let mut v = vec![];
    match g.below(4) {
        0 | 1 => v.push(Simple::Type(g.pick(TYPES))),
        2 => v.push(Simple::Any),
        _ => {}
    }
    let n = g.weighted(&[6, 4, 2, 1]).max(v.is_empty() as usize);
    for _ in 0..n {
        v.push(match g.below(6) {
            0 => Simple::Id(g.pick(IDS)),
            1 | 2 | 3 => Simple::Class(g.pick(CLASSES)),
            4 => Simple::Pseudo(g.of(PSEUDO).0),
            _ => {
                if g.chance(1, 4) {
                    Simple::Pseudo(g.pick(PSEUDO_THEME))
                } else {
                    Simple::Pseudo(g.of(PSEUDO).0)
                }
            }
        });
    }
    Compound(v)
}

pub fn complex(g: &mut G) -> Complex {
    let n = 1 + g.weighted(&[8, 5, 3, 1]);
    let parts = (0..n).map(|_| compound(g)).collect();
    let child = (1..n).map(|_| g.bool()).collect();
    Complex { parts, child }
}

/// A compound that the given node satisfies.
pub fn compound_for(g: &mut G, m: &WidgetMeta) -> Compound {
    let mut v = vec![];
    match g.below(3) {
        0 if !m.type_names.is_empty() => v.push(Simple::Type(*g.of(&m.type_names))),
        0 => v.push(Simple::Type(m.type_name)),
        1 => v.push(Simple::Any),
        _ => {}
    }
    if let Some(id) = &m.id {
        if g.chance(1, 4) {
            v.push(Simple::Id(IDS.iter().find(|x| *x == id).unwrap()));
        }
    }
    for c in &m.classes {
        if g.chance(1, 3) {
            v.push(Simple::Class(CLASSES.iter().find(|x| *x == c).unwrap()));
        }
    }
    for (n, f) in PSEUDO {
        if m.states.contains(*f) && g.chance(1, 3) {
            v.push(Simple::Pseudo(n));
        }
    }
    if v.is_empty() {
        v.push(Simple::Any);
    }
    Compound(v)
}

/// Mostly a selector that matches (built from a walk up the chain), sometimes with one part altered.
pub fn complex_for(g: &mut G, widget: &WidgetMeta, ancestors: &[WidgetMeta]) -> Complex {
    if g.chance(1, 5) {
        return complex(g);
    }
    let mut parts = vec![compound_for(g, widget)];
    let mut child = vec![];
    let mut at = 0usize;
    let n = g.weighted(&[5, 4, 3, 1]);
    for _ in 0..n {
        if at >= ancestors.len() {
            break;
        }
        let is_child = g.bool();
        let i = if is_child { at } else { g.usize(at, ancestors.len() - 1) };
        parts.push(compound_for(g, &ancestors[i]));
        child.push(is_child);
        at = i + 1;
    }
    if g.chance(1, 6) {
        let k = g.usize(0, parts.len() - 1);
        parts[k] = compound(g);
    }
    if !child.is_empty() && g.chance(1, 6) {
        let k = g.usize(0, child.len() - 1);
        child[k] = !child[k];
    }
    parts.reverse();
    child.reverse();
    Complex { parts, child }
}

pub fn meta(g: &mut G) -> WidgetMeta {
    let t = *g.of(TYPES);
    let type_names = match g.below(4) {
        0 => vec![],
        1 => vec![t],
        _ => {
            // The hierarchy of a widget is as deep as its author made it: each type named in it
            // matches, whatever its place.
            let mut v = vec![t];
            for _ in 0..*g.of(&[0usize, 0, 1, 2, 3, 6]) {
                let b = *g.of(TYPES);
                if !v.contains(&b) {
                    v.push(b);
                }
            }
            if g.bool() && !v.contains(&"Widget") {
                v.push("Widget");
            }
            if t != "DOMNode" && !v.contains(&"DOMNode") {
                v.push("DOMNode");
            }
            v
        }
    };
    let id = if g.chance(1, 3) { Some(g.pick(IDS).to_string()) } else { None };
    let mut classes: Vec<String> = vec![];
    for c in CLASSES {
        if g.chance(1, 3) {
            classes.push(c.to_string());
        }
    }
    let mut states = WidgetStates::empty();
    for (_, f) in PSEUDO {
        if g.chance(1, 4) {
            states |= *f;
        }
    }
    WidgetMeta { type_name: t, type_names, id, classes, states }
}

pub fn theme(g: &mut G) -> Theme {
    if g.chance(1, 4) {
        static ALL: std::sync::OnceLock<std::collections::HashMap<String, Theme>> = std::sync::OnceLock::new();
        let all = ALL.get_or_init(Theme::standard_themes);
        let mut n: Vec<String> = all.keys().cloned().collect();
        n.sort();
        return all[g.of(&n)].clone();
    }
    let name = g.pick(&["plain", "my-ansi", "nocolor-x", "no-color"]);
    let dark = g.bool();
    let mut t = Theme::new(name, dark);
    for n in ["primary", "surface", "link-background-hover", "x1", "primary-lighten-1"] {
        if g.chance(2, 3) {
            t.colors.insert(n.to_string(), RgbaColor::rgb(g.u8(), g.u8(), g.u8()));
        }
    }
    if g.bool() {
        t.styles.insert("link-style".into(), TextStyle { underline: true, bold: g.bool(), ..Default::default() });
    }
    t
}

// ---- text ---------------------------------------------------------------------------------------------

const COMMENT_BITS: &[&str] = &["a", " ", "}", "{", ";", "$x: 5;", "/", "\"", "'", "color: red;", "#", "é", "&", "//", "*", ": ", "/*"];

/// Optional whitespace and comments. `need` demands at least one separator.
pub fn ws(g: &mut G, need: bool, noisy: bool) -> String {
    if !noisy {
        return if need { " ".into() } else { String::new() };
    }
    let mut s = String::new();
    let n = g.weighted(&[5, 5, 2]).max(need as usize);
    for _ in 0..n {
        match g.weighted(&[10, 3, 2, 2, 1]) {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push('\t'),
            3 => {
                let mut body: String = g.vec(0, 5, |g| g.pick(COMMENT_BITS).to_string()).concat();
                while body.contains("*/") {
                    body = body.replace("*/", "");
                }
                if body.ends_with('*') {
                    body.push(' ');
                }
                s.push_str(&format!("/*{body}*/"));
            }
            _ => {
                let body: String = g.vec(0, 5, |g| g.pick(COMMENT_BITS).to_string()).concat();
                s.push_str(&format!(" //{body}\n"));
            }
        }
    }
    s
}

pub fn decl_text(g: &mut G, dl: &Decl, noisy: bool) -> String {
    let mut s = format!("{}{}:{}", dl.prop, ws(g, false, noisy), ws(g, false, noisy));
    for (i, t) in dl.tokens.iter().enumerate() {
        if i > 0 {
            s.push_str(&ws(g, true, noisy));
        }
        s.push_str(t);
    }
    s
}

/// `{ ... }` body with the declarations in order; the last `;` may be missing.
pub fn body_text(g: &mut G, decls: &[Decl], noisy: bool) -> String {
    let mut s = String::new();
    let mut closed = false;
    for (i, dl) in decls.iter().enumerate() {
        s.push_str(&ws(g, false, noisy));
        if noisy && g.chance(1, 12) {
            s.push_str("frobnicate: zig zag 12px;");
            s.push_str(&ws(g, false, noisy));
        }
        s.push_str(&decl_text(g, dl, noisy));
        s.push_str(&ws(g, false, noisy));
        if i + 1 < decls.len() || !g.chance(1, 4) {
            s.push(';');
            closed = true;
        } else {
            closed = false;
        }
    }
    s.push_str(&ws(g, false, noisy));
    if noisy && closed && g.chance(1, 12) {
        s.push_str("unknown-last: 1 2");
    }
    s
}

pub fn list_text(g: &mut G, sels: &[Complex], noisy: bool) -> String {
    let mut s = String::new();
    for (i, c) in sels.iter().enumerate() {
        if i > 0 {
            s.push_str(&format!("{},{}", ws(g, false, noisy), ws(g, false, noisy)));
        }
        s.push_str(&c.text(g));
    }
    s
}
