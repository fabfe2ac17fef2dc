//! C31: links in text: how each one looks, at rest and under the pointer, and what a press on it asks for.
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::c23_box::opaque;
use crate::common::*;
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use tcss::types::border::{BorderEdge, BorderKind};
use tcss::types::link::LinkStyle;
use tcss::types::text::TextStyle;
use tcss::types::{ComputedStyle, RgbaColor, Scalar, TextOverflow, TextWrap, Unit};
use textual::canvas::TextAttributes;
use textual::{Canvas, Label, Region, Static, Widget};

type M = u32;
type Rgb = (u8, u8, u8);

fn rgb(c: &RgbaColor) -> Rgb {
    (c.r, c.g, c.b)
}

fn lum(c: Rgb) -> f64 {
    (0.299 * c.0 as f64 + 0.587 * c.1 as f64 + 0.114 * c.2 as f64) / 255.0
}

fn mix(over: Rgb, under: Rgb, a: f64) -> (f64, f64, f64) {
    let f = |o: u8, u: u8| o as f64 * a + u as f64 * (1.0 - a);
    (f(over.0, under.0), f(over.1, under.1), f(over.2, under.2))
}

#[derive(Clone, Copy, Debug)]
enum Ink {
    Exact(Rgb),
    /// within a rounding step (or two, where two blends follow each other)
    Near((f64, f64, f64), f64),
    Unstated,
}
impl Ink {
    fn admits(&self, got: Option<Rgb>) -> bool {
        match (self, got) {
            (Ink::Unstated, _) => true,
            (_, None) => false,
            (Ink::Exact(c), Some(g)) => *c == g,
            (Ink::Near(c, tol), Some(g)) => (c.0 - g.0 as f64).abs() <= *tol && (c.1 - g.1 as f64).abs() <= *tol && (c.2 - g.2 as f64).abs() <= *tol,
        }
    }
    fn mid(&self) -> Rgb {
        match self {
            Ink::Exact(c) => *c,
            Ink::Near(c, _) => (c.0.round() as u8, c.1.round() as u8, c.2.round() as u8),
            Ink::Unstated => (0, 0, 0),
        }
    }
}

/// Black or white, whichever reads better on the background, mixed with it.
fn contrast(bg: Ink, ratio: f64) -> Ink {
    let b = bg.mid();
    if (lum(b) - 0.5).abs() < 0.012 {
        return Ink::Unstated;
    }
    let c = if lum(b) < 0.5 { (255, 255, 255) } else { (0, 0, 0) };
    if ratio >= 1.0 { Ink::Exact(c) } else { Ink::Near(mix(c, b, ratio), 1.6) }
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct At {
    bold: bool,
    dim: bool,
    italic: bool,
    underline: bool,
    strike: bool,
    reverse: bool,
}
impl At {
    fn or(self, o: At) -> At {
        At { bold: self.bold || o.bold, dim: self.dim || o.dim, italic: self.italic || o.italic, underline: self.underline || o.underline, strike: self.strike || o.strike, reverse: self.reverse || o.reverse }
    }
    fn of(t: &TextStyle) -> At {
        At { bold: t.bold, dim: t.dim, italic: t.italic, underline: t.underline, strike: t.strike, reverse: t.reverse }
    }
    fn cell(t: &TextAttributes) -> At {
        At { bold: t.bold, dim: t.dim, italic: t.italic, underline: t.underline, strike: t.strike, reverse: t.reverse }
    }
}

#[derive(Clone, Debug)]
struct Pc {
    g: String,
    w: usize,
    fg: Rgb,
    bg: Rgb,
    at: At,
    act: Option<String>,
}

const ACTS: &[&str] = &["one", "app.two", "go", "view.more"];

struct Doc {
    markup: String,
    lines: Vec<Vec<Pc>>,
}

fn text_of(g: &mut G, spaces: bool) -> Vec<&'static str> {
    let n = g.usize(1, 4);
    (0..n).map(|_| if spaces && g.chance(1, 6) { " " } else if g.chance(1, 5) { g.pick(WIDE) } else { g.pick(NARROW) }).collect()
}

fn gen_doc(g: &mut G, base_fg: Rgb, base_bg: Rgb, base_at: At, one_line: bool) -> Doc {
    let mut d = Doc { markup: String::new(), lines: vec![vec![]] };
    let n = g.usize(1, if one_line { 5 } else { 8 });
    for _ in 0..n {
        if !one_line && g.chance(1, 4) {
            d.markup.push('\n');
            d.lines.push(vec![]);
        }
        // a run: up to three tags around one to three pieces of text, one of which may be styled by itself
        let (mut fg, mut bg, mut at, mut act) = (base_fg, base_bg, base_at, None);
        let mut open = 0;
        for _ in 0..g.weighted(&[2, 4, 3, 1]) {
            tag(g, &mut d.markup, &mut fg, &mut bg, &mut at, &mut act);
            open += 1;
        }
        for k in 0..g.usize(1, 3) {
            let (mut f, mut b, mut a, mut c) = (fg, bg, at, act.clone());
            let inner = k > 0 && g.chance(1, 2);
            if inner {
                tag(g, &mut d.markup, &mut f, &mut b, &mut a, &mut c);
            }
            for t in text_of(g, !one_line) {
                d.markup.push_str(t);
                d.lines.last_mut().unwrap().push(Pc { g: t.into(), w: gw(t), fg: f, bg: b, at: a, act: c.clone() });
            }
            if inner {
                d.markup.push_str("[/]");
            }
            if !one_line && k == 0 && g.chance(1, 6) {
                d.markup.push('\n');
                d.lines.push(vec![]);
            }
        }
        d.markup.push_str(&"[/]".repeat(open));
    }
    d
}

fn tag(g: &mut G, m: &mut String, fg: &mut Rgb, bg: &mut Rgb, at: &mut At, act: &mut Option<String>) {
    match g.weighted(&[6, 1, 1, 1, 1, 1, 1, 2, 2]) {
        0 => {
            let a = *g.of(ACTS);
            m.push_str(&format!("[@click={a}]"));
            *act = Some(a.into());
        }
        1 => {
            m.push_str("[bold]");
            at.bold = true;
        }
        2 => {
            m.push_str("[italic]");
            at.italic = true;
        }
        3 => {
            m.push_str("[dim]");
            at.dim = true;
        }
        4 => {
            m.push_str("[strike]");
            at.strike = true;
        }
        5 => {
            m.push_str("[reverse]");
            at.reverse = true;
        }
        6 => {
            m.push_str("[underline]");
            at.underline = true;
        }
        7 => {
            let c = (g.u8(), g.u8(), g.u8());
            m.push_str(&format!("[#{:02x}{:02x}{:02x}]", c.0, c.1, c.2));
            *fg = c;
        }
        _ => {
            let c = (g.u8(), g.u8(), g.u8());
            m.push_str(&format!("[on #{:02x}{:02x}{:02x}]", c.0, c.1, c.2));
            *bg = c;
        }
    }
}

fn link_colour(g: &mut G, auto: bool) -> Option<RgbaColor> {
    let a = *g.of(&[1.0f32, 1.0, 0.5, 0.87, 0.25, 0.0]);
    match g.weighted(&[3, 3, 3, if auto { 3 } else { 0 }]) {
        0 => None,
        1 => Some(opaque(g)),
        2 => Some(RgbaColor { a, ..opaque(g) }),
        _ => Some(RgbaColor { a, auto: true, ..Default::default() }),
    }
}

fn text_style(g: &mut G, under: bool) -> TextStyle {
    TextStyle { bold: g.chance(1, 4), dim: g.chance(1, 5), italic: g.chance(1, 4), underline: under && g.chance(1, 3), strike: g.chance(1, 5), reverse: g.chance(1, 5), ..Default::default() }
}

/// What one piece of text looks like.
fn look(p: &Pc, l: &LinkStyle, hovered: Option<&String>) -> (Ink, Ink, At, bool) {
    let Some(act) = &p.act else { return (Ink::Exact(p.fg), Ink::Exact(p.bg), p.at, true) };
    let hov = hovered == Some(act);
    let pick = |h: &Option<RgbaColor>, n: &Option<RgbaColor>| if hov && h.is_some() { h.clone() } else { n.clone() };
    let lbg = pick(&l.background_hover, &l.background);
    let bg = match &lbg {
        None => Ink::Exact(p.bg),
        Some(c) if c.a >= 1.0 => Ink::Exact(rgb(c)),
        Some(c) => Ink::Near(mix(rgb(c), p.bg, c.a as f64), 1.01),
    };
    let fg = match pick(&l.color_hover, &l.color) {
        Some(c) if c.auto => contrast(bg, c.a as f64),
        Some(c) if c.a >= 1.0 => Ink::Exact(rgb(&c)),
        Some(c) => Ink::Near(mix(rgb(&c), bg.mid(), c.a as f64), 2.1),
        None => contrast(bg, 0.87),
    };
    let mut at = p.at.or(At::of(&l.style));
    if hov {
        at = at.or(At::of(&l.style_hover));
    }
    let told_under = !(hov && p.at.underline);
    at.underline = if hov { l.style.underline || l.style_hover.underline } else { true };
    (fg, bg, at, told_under)
}

enum W {
    S(Static<M>),
    L(Label<M>),
}
impl W {
    fn w(&mut self) -> &mut dyn Widget<M> {
        match self {
            W::S(s) => s,
            W::L(l) => l,
        }
    }
    fn update(&mut self, t: &str) {
        match self {
            W::S(s) => s.update(t),
            W::L(l) => l.update(t),
        }
    }
}

fn links(g: &mut G) -> R {
    let mut style = ComputedStyle { color: Some(opaque(g)), background: Some(opaque(g)), inherited_background: Some(opaque(g)), ..Default::default() };
    if g.chance(1, 4) {
        style.text_style = text_style(g, true);
    }
    let (base_fg, base_bg, base_at) = (rgb(style.color.as_ref().unwrap()), rgb(style.background.as_ref().unwrap()), At::of(&style.text_style));
    style.link = LinkStyle { color: link_colour(g, true), background: link_colour(g, false), color_hover: link_colour(g, true), background_hover: link_colour(g, false), style: text_style(g, true), style_hover: text_style(g, true) };
    let edge = |g: &mut G| BorderEdge { kind: if g.chance(1, 3) { BorderKind::Solid } else { BorderKind::None }, color: None };
    (style.border.top, style.border.right, style.border.bottom, style.border.left) = (edge(g), edge(g), edge(g), edge(g));
    let cell = |v: usize| Scalar { value: v as f64, unit: Unit::Cells };
    (style.padding.left, style.padding.top) = (cell(g.below(3) as usize), cell(g.below(2) as usize));
    let on = |e: &BorderEdge| (e.kind == BorderKind::Solid) as usize;
    let (left, top) = (on(&style.border.left) + style.padding.left.value as usize, on(&style.border.top) + style.padding.top.value as usize);
    // either lines that fit or are clipped, or one long word folded to the width
    let fold = g.chance(1, 3);
    let iw = if fold { g.usize(2, 9) } else { g.usize(4, 30) };
    style.text_wrap = if fold { TextWrap::Wrap } else { TextWrap::NoWrap };
    style.text_overflow = if fold { TextOverflow::Fold } else { TextOverflow::Clip };
    let mut doc = gen_doc(g, base_fg, base_bg, base_at, fold);
    let ih = if g.chance(1, 5) { g.usize(1, 3) } else { 12 };
    let (w, h) = (iw + left + on(&style.border.right), ih + top + on(&style.border.bottom));
    let (ox, oy) = (g.i32(0, 5), g.i32(0, 3));
    let region = Region::new(ox, oy, w as i32, h as i32);
    let (cw, ch) = (w + 8, h + 5);
    let label = g.chance(1, 3);
    g.note(|| format!("{} {:?}\nregion {region:?} text starts at +{left},+{top} room {iw}x{ih} fold {fold}\nink {base_fg:?} on {base_bg:?} {base_at:?}\nlinks {:?}", if label { "label" } else { "static" }, doc.markup, style.link));
    let mut wd = if label { W::L(Label::new(doc.markup.clone())) } else { W::S(Static::new(doc.markup.clone())) };
    wd.w().set_style(style.clone());

    let mut hovered: Option<String> = None;
    let mut shown_hover = 0;
    let mut pressed = 0;
    let steps = g.usize(1, 6);
    for step in 0..=steps {
        // what is where
        let mut rows: Vec<Vec<Option<Pc>>> = vec![];
        for l in &doc.lines {
            let mut row: Vec<Option<Pc>> = vec![];
            for p in l {
                if row.len() + p.w > iw {
                    if !fold {
                        if row.len() < iw {
                            // the half of a wide character that still fits is blank
                            row.push(Some(Pc { g: " ".into(), ..p.clone() }));
                        }
                        break;
                    }
                    row.resize(iw, None);
                    rows.push(std::mem::take(&mut row));
                }
                row.push(Some(p.clone()));
                if p.w == 2 {
                    row.push(Some(Pc { g: "CONT".into(), ..p.clone() }));
                }
            }
            row.resize(iw, None);
            rows.push(row);
        }
        rows.truncate(ih);
        let mut canvas = Canvas::new(cw as u16, ch as u16);
        wd.w().render(&mut canvas, region);
        let cells = canvas_cells(&canvas);
        for (y, row) in rows.iter().enumerate() {
            for (x, p) in row.iter().enumerate() {
                let Some(p) = p else { continue };
                if p.g == "CONT" {
                    continue;
                }
                let c: &MCell = &cells[(y + top + oy as usize) * cw + x + left + ox as usize];
                ensure_eq!(c.glyph, Glyph::Lead(p.g.clone()), "text at row {y} column {x}, after {step} steps");
                let (fg, bg, at, under) = look(p, &style.link, hovered.as_ref());
                let st = if p.act.is_none() { "text" } else if hovered == p.act { "link under the pointer" } else { "link" };
                ensure!(fg.admits(c.fg), "{st} {p:?} at row {y} column {x}: ink {:?}, want {fg:?}", c.fg);
                ensure!(bg.admits(c.bg), "{st} {p:?} at row {y} column {x}: background {:?}, want {bg:?}", c.bg);
                let (mut got, mut want) = (At::cell(&c.attrs), at);
                if !under {
                    (got.underline, want.underline) = (false, false);
                }
                ensure_eq!(got, want, "attributes of {st} {p:?} at row {y} column {x}, after {step} steps");
            }
        }
        shown_hover += rows.iter().flatten().flatten().any(|p| p.act.is_some() && p.act == hovered) as usize;
        // one thing happens
        match g.weighted(&[6, 4, 2, 1, 1]) {
            k @ (0 | 1) => {
                let near: Vec<(usize, usize)> = rows.iter().enumerate().flat_map(|(y, r)| r.iter().enumerate().filter(|(_, p)| p.as_ref().is_some_and(|p| p.act.is_some())).map(move |(x, _)| (x, y))).collect();
                let (x, y) = if !near.is_empty() && g.chance(3, 5) { *g.of(&near) } else { (g.usize(0, cw - 1), g.usize(0, ch - 1)) };
                let aimed = near.contains(&(x, y));
                let (sx, sy) = if aimed { (x + left + ox as usize, y + top + oy as usize) } else { (x, y) };
                let (lx, ly) = (sx as i64 - ox as i64 - left as i64, sy as i64 - oy as i64 - top as i64);
                let at = if lx >= 0 && ly >= 0 { rows.get(ly as usize).and_then(|r| r.get(lx as usize)).cloned().flatten().and_then(|p| p.act) } else { None };
                let inside = region.contains_point(sx as i32, sy as i32);
                let kind = if k == 0 { MouseEventKind::Moved } else { MouseEventKind::Down(*g.of(&[MouseButton::Left, MouseButton::Left, MouseButton::Left, MouseButton::Right])) };
                g.note(|| format!("{kind:?} at {sx},{sy}: {at:?}"));
                let m = wd.w().on_mouse(MouseEvent { kind, column: sx as u16, row: sy as u16, modifiers: KeyModifiers::NONE }, region);
                ensure_eq!(m, None, "message of {kind:?}");
                let asked = wd.w().take_pending_action();
                let again = wd.w().take_pending_action();
                let want = if kind == MouseEventKind::Down(MouseButton::Left) { at.clone() } else { None };
                ensure_eq!((asked, again), (want.clone(), None), "action asked for by {kind:?} at {sx},{sy}");
                pressed += want.is_some() as usize;
                if k == 0 && inside {
                    hovered = at;
                }
            }
            2 => {
                g.note(|| "the pointer leaves".into());
                wd.w().clear_hover();
                hovered = None;
            }
            3 => {
                style.link.color_hover = link_colour(g, true);
                style.link.background = link_colour(g, false);
                g.note(|| format!("restyled: {:?}", style.link));
                wd.w().set_style(style.clone());
            }
            _ => {
                doc = gen_doc(g, base_fg, base_bg, base_at, fold);
                g.note(|| format!("new text {:?}", doc.markup));
                wd.update(&doc.markup);
            }
        }
    }
    g.label_if(shown_hover > 0, "hovered link shown");
    g.label_if(pressed > 0, "link pressed");
    g.label_if(fold, "folded");
    g.label_if(hovered.is_some(), "still hovered");
    g.nontrivial_if(shown_hover > 0 || pressed > 0);
    Ok(())
}

pub const P31: Property = Property {
    id: "C31",
    rule: "a hovered link was on screen, or a link was pressed",
    assumptions: &[
        "opaque text and background colours of the widget itself; link colours may be translucent or automatic",
        "automatic contrast is not stated within 1% of medium brightness, and blends are compared to within a rounding step",
        "whether a hovered link keeps the underline of its own markup is not stated",
    ],
    parts: &[Part { name: "links", quick: 200_000, thorough: 3_000_000, f: links }],
};
