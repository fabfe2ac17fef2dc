//! C23: a text box (border, title, padding, aligned content) drawn cell by cell; nothing outside its region.
use crate::c09_text::{Ch, chs};
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::common::*;
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use tcss::types::border::{BorderEdge, BorderKind};
use tcss::types::text::{AlignHorizontal, AlignVertical, TextAlign};
use tcss::types::{ComputedStyle, HatchPattern, TextStyle, RgbaColor, Scalar, Spacing, TextOverflow, TextWrap, Unit};
use textual::content::Content;
use textual::canvas::TextAttributes;
use textual::{Canvas, Region, Static, Widget};

type M = u32;
type Rgb = Option<(u8, u8, u8)>;

/// kind, corners and edges (tl t tr l r bl b br), whether every part is drawn in (edge colour on the box's background)
const KINDS: &[(BorderKind, &str, bool)] = &[
    (BorderKind::Round, "╭─╮││╰─╯", true),
    (BorderKind::Solid, "┌─┐││└─┘", true),
    (BorderKind::Double, "╔═╗║║╚═╝", true),
    (BorderKind::Heavy, "┏━┓┃┃┗━┛", true),
    (BorderKind::Ascii, "+-+||+-+", true),
    (BorderKind::Dashed, "┏╍┓╏╏┗╍┛", true),
    (BorderKind::Thick, "█▀████▄█", true),
    (BorderKind::Blank, "        ", true),
    (BorderKind::Outer, "▛▀▜▌▐▙▄▟", true),
    (BorderKind::Tall, "▊▔▎▊▎▊▁▎", false),
    (BorderKind::Wide, "▁▁▁▎▊▔▔▔", false),
    (BorderKind::Inner, "▗▄▖▐▌▝▀▘", false),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum E {
    Top = 0,
    Right = 1,
    Bottom = 2,
    Left = 3,
}

struct Bx {
    style: ComputedStyle,
    kinds: [Option<usize>; 4],
}
impl Bx {
    fn has(&self, e: E) -> bool {
        self.kinds[e as usize].is_some()
    }
    fn ch(&self, e: E, i: usize) -> String {
        KINDS[self.kinds[e as usize].unwrap()].1.chars().nth(i).unwrap().to_string()
    }
    fn edge(&self, e: E) -> &BorderEdge {
        let b = &self.style.border;
        [&b.top, &b.right, &b.bottom, &b.left][e as usize]
    }
    fn edge_fg(&self, e: E) -> Rgb {
        flat(self.edge(e).color.as_ref().or(self.style.color.as_ref()))
    }
    fn plain(&self, e: E) -> bool {
        KINDS[self.kinds[e as usize].unwrap()].2
    }
    fn bg(&self) -> Rgb {
        flat(self.style.background.as_ref())
    }
}

fn flat(c: Option<&RgbaColor>) -> Rgb {
    c.map(|c| (c.r, c.g, c.b))
}

pub fn opaque(g: &mut G) -> RgbaColor {
    RgbaColor::rgb(g.u8(), g.u8(), g.u8())
}

fn spacing(g: &mut G, hi: usize) -> Spacing {
    let mut s = || Scalar { value: if g.chance(1, 2) { 0.0 } else { g.usize(0, hi) as f64 }, unit: Unit::Cells };
    Spacing { top: s(), right: s(), bottom: s(), left: s() }
}

fn gen_box(g: &mut G) -> Bx {
    let mut style = ComputedStyle { color: Some(opaque(g)), background: Some(opaque(g)), inherited_background: Some(opaque(g)), ..Default::default() };
    let mode = g.weighted(&[2, 4, 4]);
    let k0 = g.usize(0, KINDS.len() - 1);
    let mut kinds = [None; 4];
    for k in kinds.iter_mut() {
        *k = match mode {
            0 => None,
            1 => Some(k0),
            _ => if g.bool() { Some(if g.bool() { k0 } else { g.usize(0, KINDS.len() - 1) }) } else { None },
        };
    }
    let shared = if g.bool() { Some(opaque(g)) } else { None };
    let vary = g.chance(1, 3);
    let mut edge = |i: usize, g: &mut G| {
        let c = if vary { if g.bool() { Some(opaque(g)) } else { None } } else { shared.clone() };
        match kinds[i] {
            Some(k) => BorderEdge { kind: KINDS[k].0, color: c },
            None => BorderEdge { kind: if g.chance(1, 4) { BorderKind::Hidden } else { BorderKind::None }, color: c },
        }
    };
    style.border.top = edge(0, g);
    style.border.right = edge(1, g);
    style.border.bottom = edge(2, g);
    style.border.left = edge(3, g);
    let hi = if g.chance(1, 5) { 9 } else { 2 };
    style.padding = spacing(g, hi);
    style.content_align_horizontal = *g.of(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    style.content_align_vertical = *g.of(&[AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom]);
    style.text_align = *g.of(&[TextAlign::Left, TextAlign::Start, TextAlign::Center, TextAlign::Right, TextAlign::End]);
    style.border_title_align = *g.of(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    style.border_subtitle_align = *g.of(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    if g.chance(1, 4) {
        style.border_title_color = Some(opaque(g));
        style.border_title_background = Some(opaque(g));
    }
    if g.chance(1, 4) {
        style.border_subtitle_color = Some(opaque(g));
    }
    style.text_wrap = *g.of(&[TextWrap::Wrap, TextWrap::Wrap, TextWrap::NoWrap]);
    style.text_overflow = *g.of(&[TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis]);
    Bx { style, kinds }
}

/// The style of any box.
pub fn random_style(g: &mut G) -> ComputedStyle {
    gen_box(g).style
}

fn gen_content(g: &mut G, links: bool) -> String {
    let n = g.usize(0, 4);
    let mut lines = vec![];
    for _ in 0..n {
        let mut l = String::new();
        for i in 0..g.usize(0, 4) {
            if i > 0 {
                l.push(' ');
            }
            let w = word(g, 5);
            match g.below(8) {
                0 => l.push_str(&format!("[bold]{w}[/]")),
                1 => l.push_str(&format!("[#00ff00]{w}[/]")),
                2 if links => l.push_str(&format!("[@click=act{i}]{w}[/]")),
                _ => l.push_str(&w),
            }
        }
        lines.push(l);
    }
    lines.join("\n")
}

#[derive(Clone, Debug)]
struct Want {
    g: Option<String>, // None: not stated
    fg: Option<Rgb>,
    bg: Option<Rgb>,
    action: Option<String>,
}

/// Lays characters of cell widths into a row; halves of wide ones that do not fit become spaces.
fn lay(row: &mut [Want], x0: i64, end: i64, line: &[Ch], bg: Rgb) {
    let mut x = x0;
    for c in line {
        let n = x + c.w as i64;
        for (j, q) in (x..n).enumerate() {
            if q < 0 || q >= end || q as usize >= row.len() {
                continue;
            }
            let whole = n <= end;
            let g = if !whole { " ".to_string() } else if j == 0 { c.g.clone() } else { "CONT".into() };
            row[q as usize] = Want {
                g: Some(g),
                fg: Some(flat(c.style.fg.as_ref())),
                bg: Some(flat(c.style.bg.as_ref()).or(bg)),
                action: c.meta.get("@click").cloned(),
            };
        }
        x = n;
    }
}

fn wlen(l: &[Ch]) -> usize {
    l.iter().map(|c| c.w).sum()
}

/// The inside of a label row: fill, label, fill. None when the label does not fit.
fn label_cells(label: &[Ch], room: usize, spaced: bool, align: AlignHorizontal) -> Option<usize> {
    let len = wlen(label) + if spaced { 2 } else { 0 };
    if len + 2 > room {
        return None;
    }
    let pad = room - len;
    let left = match align {
        AlignHorizontal::Left => 1,
        AlignHorizontal::Center => pad / 2,
        AlignHorizontal::Right => pad - 1,
    };
    Some(left + spaced as usize)
}

fn text_box(g: &mut G) -> R {
    let b = gen_box(g);
    let text = gen_content(g, true);
    let title = if g.chance(1, 2) { Some(word(g, 12)) } else { None };
    let sub = if g.chance(1, 3) { Some(word(g, 12)) } else { None };
    let (w, h) = if g.chance(4, 5) { (g.usize(4, 24), g.usize(2, 9)) } else { (g.usize(1, 12), g.usize(1, 6)) };
    let (ox, oy) = (g.i32(-4, 6), g.i32(-3, 4));
    let (cw, ch) = (26usize, 12usize);
    g.note(|| format!("text {text:?} title {title:?} subtitle {sub:?}\nregion {w}x{h} at {ox},{oy} on {cw}x{ch}\nedges t r b l {:?} padding {:?}\ncontent-align {:?} {:?} text-align {:?} wrap {:?} {:?} title-align {:?}/{:?}", b.kinds.map(|k| k.map(|k| KINDS[k].0)), [b.style.padding.top.value, b.style.padding.right.value, b.style.padding.bottom.value, b.style.padding.left.value], b.style.content_align_horizontal, b.style.content_align_vertical, b.style.text_align, b.style.text_wrap, b.style.text_overflow, b.style.border_title_align, b.style.border_subtitle_align));

    let mut s: Static<M> = Static::new(text.clone());
    if let Some(t) = &title {
        s = s.with_border_title(t.clone());
    }
    if let Some(t) = &sub {
        s = s.with_border_subtitle(t.clone());
    }
    s.set_style(b.style.clone());
    let mut canvas = Canvas::new(cw as u16, ch as u16);
    if g.chance(1, 4) {
        // the same box in translucent ink, drawn earlier, elsewhere
        g.label("after a translucent box");
        let mut st = b.style.clone();
        for e in [&mut st.border.top, &mut st.border.right, &mut st.border.bottom, &mut st.border.left] {
            e.color = e.color.clone().or(st.color.clone()).map(|c| RgbaColor { a: 0.3, ..c });
        }
        if let Some(c) = st.color.as_mut() {
            c.a = 0.3;
        }
        let mut s2: Static<M> = Static::new("x");
        s2.set_style(st);
        s2.render(&mut Canvas::new(9, 3), Region::new(0, 0, 9, 3));
    }
    let ground = RgbaColor::rgb(9, 8, 7);
    for y in 0..ch as i32 {
        canvas.put_str(0, y, &"#".repeat(cw), Some(ground.clone()), Some(ground.clone()), Default::default());
    }
    let region = Region::new(ox, oy, w as i32, h as i32);
    s.render(&mut canvas, region);
    let got = canvas_cells(&canvas);

    // ---- reference
    let (bt, br, bb, bl) = (b.has(E::Top) as usize, b.has(E::Right) as usize, b.has(E::Bottom) as usize, b.has(E::Left) as usize);
    let any = bt + br + bb + bl > 0;
    let p = &b.style.padding;
    let (pt, pr, pb, pl) = (p.top.value as usize, p.right.value as usize, p.bottom.value as usize, p.left.value as usize);
    let (title, sub) = if any { (title, sub) } else { (None, None) };
    let res_t = (bt == 0 && title.is_some()) as usize;
    let res_b = (bb == 0 && sub.is_some()) as usize;
    let roomy = w >= bl + br + pl + pr + 1 && h >= bt + bb + pt + pb + res_t + res_b + 1;
    let blank = Want { g: Some(" ".into()), fg: None, bg: Some(b.bg()), action: None };
    let mut want = vec![vec![blank.clone(); w]; h];
    if !roomy {
        // only the frame is stated
        for row in want.iter_mut() {
            for c in row.iter_mut() {
                c.g = None;
                c.bg = None;
            }
        }
    }
    if roomy {
        let iw = w - bl - br - pl - pr;
        let ih = h - bt - bb - pt - pb - res_t - res_b;
        let base = textual::segment::Style { fg: b.style.color.clone(), bg: b.style.background.clone(), ..Default::default() };
        let content = match Content::from_markup(&text) {
            Ok(c) => c.with_style(base).with_link_style(b.style.link.clone()),
            Err(e) => fail!("markup {text:?}: {e:?}"),
        };
        let lines: Vec<Vec<Ch>> = content.wrap_with_line_end_overflow(iw, b.style.text_overflow, b.style.text_wrap).iter().map(|l| chs(&l.strip)).collect();
        let v0 = match b.style.content_align_vertical {
            AlignVertical::Top => 0,
            AlignVertical::Middle => ih.saturating_sub(lines.len()) / 2,
            AlignVertical::Bottom => ih.saturating_sub(lines.len()),
        };
        let block = lines.iter().map(|l| wlen(l)).max().unwrap_or(0).min(iw);
        let h0 = match b.style.content_align_horizontal {
            AlignHorizontal::Left => 0,
            AlignHorizontal::Center => (iw - block) / 2,
            AlignHorizontal::Right => iw - block,
        };
        let lw = if b.style.content_align_horizontal == AlignHorizontal::Left && b.style.content_align_vertical == AlignVertical::Top { iw } else { block };
        for (i, l) in lines.iter().take(ih - v0.min(ih)).enumerate() {
            let len = wlen(l).min(lw);
            let a = match b.style.text_align {
                TextAlign::Center => (lw - len) / 2,
                TextAlign::Right | TextAlign::End => lw - len,
                _ => 0,
            };
            let y = bt + pt + res_t + v0 + i;
            lay(&mut want[y], (bl + pl + h0 + a) as i64, (bl + pl + iw) as i64, l, b.bg());
        }
        g.label_if(lines.len() > ih, "text taller than the box");
        g.label_if(lines.iter().any(|l| l.iter().any(|c| c.meta.contains_key("@click"))), "links");
    }
    // frame
    let put = |want: &mut Vec<Vec<Want>>, y: usize, x: usize, e: E, i: usize| {
        let plain = b.plain(e);
        want[y][x] = Want { g: Some(b.ch(e, i)), fg: plain.then(|| b.edge_fg(e)), bg: if plain { Some(b.bg()) } else { None }, action: None };
    };
    for y in 0..h {
        if bl == 1 {
            put(&mut want, y, 0, E::Left, 3);
        }
        if br == 1 && (w > 1 || bl == 0) {
            put(&mut want, y, w - 1, E::Right, 4);
        }
    }
    let corners = bl == 1 && br == 1;
    for (e, y, c0) in [(E::Bottom, h - 1, 5), (E::Top, 0, 0)] {
        if !b.has(e) {
            continue;
        }
        for x in 0..w {
            put(&mut want, y, x, e, c0 + 1);
        }
        if corners {
            put(&mut want, y, w - 1, e, c0 + 2);
            put(&mut want, y, 0, e, c0);
        }
    }
    // labels
    let title_fg = b.style.border_title_color.as_ref().or(b.style.border.top.color.as_ref()).or(b.style.color.as_ref()).cloned();
    let title_bg = b.style.border_title_background.as_ref().or(b.style.background.as_ref()).cloned();
    let sub_fg = b.style.border_subtitle_color.as_ref().or(b.style.border.bottom.color.as_ref()).or(b.style.color.as_ref()).cloned();
    let mut cut: Vec<(usize, usize, usize, String, String)> = vec![]; // row, from, to, label, fill
    let mut label = |want: &mut Vec<Vec<Want>>, y: usize, e: E, text: &Option<String>, fg: &Option<RgbaColor>, bg: &Option<RgbaColor>, align| {
        let Some(t) = text else { return };
        let has = b.has(e);
        if !has && bl + br == 0 {
            return; // a title in a row without sides is not stated
        }
        let (from, room, spaced) = if has {
            if corners { (1, w.saturating_sub(2), true) } else { (0, w, false) }
        } else {
            (bl, w.saturating_sub(bl + br), true)
        };
        let c: Vec<Ch> = graphemes(t).iter().map(|x| Ch { g: x.to_string(), w: gw(x), style: textual::segment::Style { fg: fg.clone(), bg: bg.clone(), ..Default::default() }, meta: Default::default() }).collect();
        if !has {
            for c in want[y][from..from + room].iter_mut() {
                *c = Want { g: Some(" ".into()), fg: None, bg: None, action: None };
            }
        }
        match label_cells(&c, room, spaced, align) {
            Some(x) => {
                if spaced {
                    for q in [from + x - 1, from + x + wlen(&c)] {
                        want[y][q] = Want { g: Some(" ".into()), fg: None, bg: Some(flat(bg.as_ref())), action: None };
                    }
                }
                lay(&mut want[y], (from + x) as i64, w as i64, &c, None);
            }
            None => {
                for c in want[y][from..from + room].iter_mut() {
                    *c = Want { g: None, fg: None, bg: None, action: None };
                }
                cut.push((y, from, from + room, t.clone(), if has { b.ch(e, if e == E::Top { 1 } else { 6 }) } else { " ".into() }));
            }
        }
    };
    if h > 1 || (!b.has(E::Top) && (title.is_none() || b.has(E::Bottom))) {
        let sb = b.style.background.clone();
        label(&mut want, h - 1, E::Bottom, &sub, &sub_fg, &sb, b.style.border_subtitle_align);
    }
    if h > 1 || !b.has(E::Bottom) || b.has(E::Top) {
        label(&mut want, 0, E::Top, &title, &title_fg, &title_bg, b.style.border_title_align);
    }
    g.label_if(!cut.is_empty(), "title cut");
    g.label_if(any, "border");
    g.label_if(!roomy, "no room for content");
    g.nontrivial_if(roomy && any && (ox < 0 || oy < 0 || !text.is_empty()));

    // ---- compare
    for y in 0..ch as i32 {
        for x in 0..cw as i32 {
            let cell: &MCell = &got[(y as usize) * cw + x as usize];
            let (rx, ry) = (x - ox, y - oy);
            if rx < 0 || ry < 0 || rx >= w as i32 || ry >= h as i32 {
                ensure!(cell.glyph == Glyph::Lead("#".into()) && cell.bg == Some((9, 8, 7)), "cell {x},{y} outside the region shows {:?}", cell);
                continue;
            }
            let wc = &want[ry as usize][rx as usize];
            let shown = match &cell.glyph {
                Glyph::Lead(s) => s.clone(),
                Glyph::Cont => "CONT".into(),
            };
            if let Some(t) = &wc.g {
                // a wide character cut by the left or right screen edge may be blank
                let at_edge = (t == "CONT" && x == 0) || (gw(t) == 2 && t != "CONT" && x as usize == cw - 1);
                ensure!(shown == *t || (at_edge && (shown == " " || shown == "#")), "box cell {rx},{ry} shows {shown:?}, want {t:?}\nwant {}\n got {}", show_rows(&want), show_got(&got, cw, ox, oy, w, h));
                if at_edge {
                    continue;
                }
                if t != " " && t != "CONT" {
                    if let Some(fg) = wc.fg {
                        ensure_eq!(cell.fg, fg, "ink of box cell {rx},{ry} ({t:?})");
                    }
                }
                if let Some(bg) = wc.bg {
                    if t != "CONT" {
                        ensure_eq!(cell.bg, bg, "background of box cell {rx},{ry} ({t:?})");
                    }
                }
            }
        }
    }
    // a label that does not fit is cut, marked, and keeps to its place
    for (y, from, to, t, fill) in cut {
        let yy = y as i32 + oy;
        if yy < 0 || yy >= ch as i32 || ox < 0 || ox as usize + w > cw {
            continue;
        }
        let mut text = String::new();
        for x in from..to {
            if let Glyph::Lead(s) = &got[yy as usize * cw + x + ox as usize].glyph {
                text.push_str(s);
            }
        }
        let body = text.trim_end_matches(|c: char| c.to_string() == fill || c == ' ');
        let body = body.strip_prefix(fill.as_str()).unwrap_or(body).trim_start();
        if !body.is_empty() {
            let Some(head) = body.strip_suffix('…') else { fail!("cut label {body:?} of {t:?} lacks its ellipsis") };
            ensure!(t.starts_with(head.trim_end()), "cut label {body:?} is not the start of {t:?}");
        } else {
            ensure!(to - from < 6, "label {t:?} vanished from {} cells", to - from);
        }
    }
    // clicking: exactly the cells showing link text act
    if roomy {
        for y in 0..h {
            for x in 0..w {
                let (sx, sy) = (x as i32 + ox, y as i32 + oy);
                if sx < 0 || sy < 0 {
                    continue;
                }
                s.on_mouse(MouseEvent { kind: MouseEventKind::Down(MouseButton::Left), column: sx as u16, row: sy as u16, modifiers: KeyModifiers::NONE }, region);
                let act = Static::take_pending_action(&s);
                ensure_eq!(act, want[y][x].action, "action of a click on box cell {x},{y}");
            }
        }
    }
    Ok(())
}

fn show_rows(w: &[Vec<Want>]) -> String {
    w.iter().map(|r| format!("\n  |{}|", r.iter().map(|c| match c.g.as_deref() { None => "?", Some("CONT") => "", Some(s) => s }).collect::<String>())).collect()
}
fn show_got(c: &[MCell], cw: usize, ox: i32, oy: i32, w: usize, h: usize) -> String {
    let mut s = String::new();
    for y in oy.max(0)..(oy + h as i32) {
        s.push_str("\n  |");
        for x in ox.max(0)..(ox + w as i32) {
            if let Some(MCell { glyph: Glyph::Lead(t), .. }) = c.get(y as usize * cw + x as usize).filter(|_| (x as usize) < cw) {
                s.push_str(t);
            }
        }
        s.push('|');
    }
    s
}

/// Automatic sizes are exactly what the text needs.
fn auto_size(g: &mut G) -> R {
    let mut b = gen_box(g);
    b.style.text_wrap = TextWrap::Wrap;
    b.style.text_overflow = TextOverflow::Fold;
    b.style.content_align_vertical = AlignVertical::Top;
    b.style.content_align_horizontal = AlignHorizontal::Left;
    let text = gen_content(g, false);
    g.note(|| format!("text {text:?} edges {:?} padding {:?}", b.kinds.map(|k| k.map(|k| KINDS[k].0)), b.style.padding));
    let mut s: Static<M> = Static::new(text.clone());
    b.style.height = Some(Scalar { value: 0.0, unit: Unit::Auto });
    if g.bool() {
        b.style.width = Some(Scalar { value: 0.0, unit: Unit::Auto });
    }
    s.set_style(b.style.clone());
    let plain = match Content::from_markup(&text) {
        Ok(c) => c.text().to_string(),
        Err(e) => fail!("markup {text:?}: {e:?}"),
    };
    let p = &b.style.padding;
    let cw = b.has(E::Left) as usize + b.has(E::Right) as usize + (p.left.value + p.right.value) as usize;
    let chh = b.has(E::Top) as usize + b.has(E::Bottom) as usize + (p.top.value + p.bottom.value) as usize;
    let longest = plain.split('\n').map(width).max().unwrap_or(0);
    let d = s.desired_size();
    let tagged = text.split('\n').map(width).max().unwrap_or(0);
    if !(text != plain && d.width as usize == tagged + cw && g.known("auto-width-counts-tags")) {
        ensure_eq!(d.width as usize, longest + cw, "automatic width of {plain:?}");
    }
    ensure_eq!(d.height as usize, plain.split('\n').count() + chh, "automatic height of {plain:?}");
    // at any width, the automatic height shows all of the text and no more
    let w = g.usize(cw + 2, cw + 24);
    let h = s.intrinsic_height_for_width(w as u16) as usize;
    g.note(|| format!("width {w} height {h}"));
    let mut c = Canvas::new(w as u16, h as u16);
    s.render(&mut c, Region::new(0, 0, w as i32, h as i32));
    let cells = canvas_cells(&c);
    let (x0, x1) = (b.has(E::Left) as usize + p.left.value as usize, w - b.has(E::Right) as usize - p.right.value as usize);
    let (y0, y1) = (b.has(E::Top) as usize + p.top.value as usize, h - b.has(E::Bottom) as usize - p.bottom.value as usize);
    let mut rows = vec![];
    for y in y0..y1 {
        let mut r = String::new();
        for x in x0..x1 {
            if let Glyph::Lead(t) = &cells[y * w + x].glyph {
                r.push_str(t);
            }
        }
        rows.push(r);
    }
    let squash = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    ensure_eq!(squash(&rows.concat()), squash(&plain), "text shown at width {w} and its automatic height {h}");
    ensure!(rows.len() == 1 || plain.ends_with('\n') || plain.ends_with(' ') || !rows.last().is_some_and(|r| r.trim().is_empty()) || plain.rsplit('\n').next().is_some_and(|l| l.trim().is_empty()), "height {h} leaves blank rows below {plain:?}: {rows:?}");
    g.nontrivial_if(rows.len() > plain.split('\n').count());
    g.label_if(text != plain, "markup");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ effects

#[derive(Clone, Copy, Debug, PartialEq)]
enum Effect {
    Tint,
    BackgroundTint,
    TextOpacity,
    Opacity,
    LinePad,
    Outline,
    Hatch,
    Attributes,
    TitleAttributes,
    AutoColor,
}

/// a colour between two others: `t` of `b` and the rest of `a`
fn mixed(a: Rgb, b: Rgb, t: f64) -> Option<[f64; 3]> {
    let ((r, g, bl), (r2, g2, b2)) = (a?, b?);
    let m = |x: u8, y: u8| x as f64 + (y as f64 - x as f64) * t;
    Some([m(r, r2), m(g, g2), m(bl, b2)])
}

fn near(got: Rgb, want: Option<[f64; 3]>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some((r, g, b)), Some(w)) => [r, g, b].iter().zip(w).all(|(x, y)| (*x as f64 - y).abs() <= 1.01),
        _ => false,
    }
}

fn text_style(g: &mut G) -> TextStyle {
    TextStyle { bold: g.bool(), dim: g.bool(), italic: g.bool(), underline: g.bool(), strike: g.bool(), reverse: g.bool(), ..Default::default() }
}

fn attributes(t: &TextStyle) -> TextAttributes {
    TextAttributes { bold: t.bold, dim: t.dim, italic: t.italic, underline: t.underline, strike: t.strike, reverse: t.reverse }
}

/// What one property adds to the picture of a box: the box is drawn without it and with it, and the two compared.
fn effects(g: &mut G) -> R {
    use Effect::*;
    let effect = *g.of(&[Tint, BackgroundTint, TextOpacity, Opacity, LinePad, Outline, Outline, Hatch, Attributes, TitleAttributes, AutoColor]);
    let mut b = gen_box(g);
    if effect == Hatch {
        for k in b.kinds.iter() {
            if k.is_some_and(|k| KINDS[k].0 == BorderKind::Blank) {
                return Ok(()); // which blanks are border is not visible
            }
        }
    }
    let text = if matches!(effect, Tint | LinePad | TextOpacity) {
        gen_content(g, true)
    } else {
        let lines = g.vec(0, 4, |g| {
            let words = g.vec(0, 3, |g| (0..g.usize(1, 5)).map(|_| *g.of(&['a', 'B', 'm', '0', 'ß', 'é', '-'])).collect::<String>());
            words.join(" ")
        });
        lines.join("\n")
    };
    let any = b.kinds.iter().any(|k| k.is_some());
    let labelled = matches!(effect, Tint | LinePad | Outline | Attributes | BackgroundTint | TextOpacity) || effect == TitleAttributes;
    let label = |g: &mut G| (labelled && any && g.bool()).then(|| (0..g.usize(1, 6)).map(|_| *g.of(&['T', 'i', 'q'])).collect::<String>());
    let (title, sub) = (label(g), label(g));
    let (w, h) = (g.usize(6, 26), g.usize(3, 11));
    let p = b.style.padding.clone();
    let edge = |e: E| b.has(e) as usize;
    let (bt, br, bb, bl) = (edge(E::Top), edge(E::Right), edge(E::Bottom), edge(E::Left));
    let (pt, pr, pb, pl) = (p.top.value as usize, p.right.value as usize, p.bottom.value as usize, p.left.value as usize);
    let res_t = (bt == 0 && title.is_some()) as usize;
    let res_b = (bb == 0 && sub.is_some()) as usize;
    if w < bl + br + pl + pr + 1 || h < bt + bb + pt + pb + res_t + res_b + 1 {
        g.label("no room");
        return Ok(());
    }
    if bt + bb == 0 && bl + br == 0 && (title.is_some() || sub.is_some()) {
        return Ok(());
    }
    let draw = |style: &ComputedStyle| {
        let mut s: Static<M> = Static::new(text.clone());
        if let Some(t) = &title {
            s = s.with_border_title(t.clone());
        }
        if let Some(t) = &sub {
            s = s.with_border_subtitle(t.clone());
        }
        s.set_style(style.clone());
        let mut c = Canvas::new(w as u16, h as u16);
        s.render(&mut c, Region::new(0, 0, w as i32, h as i32));
        canvas_cells(&c)
    };
    let before = draw(&b.style);
    let mut style = b.style.clone();
    let inner = |x: usize, y: usize| x >= bl && x < w - br && y >= bt + res_t && y < h - bb - res_b;
    let content = |x: usize, y: usize| x >= bl + pl && x < w - br - pr && y >= bt + res_t + pt && y < h - bb - res_b - pb;
    let blank = |c: &MCell| c.glyph == Glyph::Lead(" ".into());
    let lead = |c: &MCell| matches!(&c.glyph, Glyph::Lead(s) if s != " ");
    let cells = || (0..h).flat_map(|y| (0..w).map(move |x| (x, y)));
    g.label(match effect {
        Tint => "tint",
        BackgroundTint => "background tint",
        TextOpacity => "text opacity",
        Opacity => "opacity",
        LinePad => "line pad",
        Outline => "outline",
        Hatch => "hatch",
        Attributes => "text style",
        TitleAttributes => "title style",
        AutoColor => "automatic colour",
    });
    let frac = |g: &mut G| match g.below(5) {
        0 => 0.0,
        1 => 1.0,
        _ => g.usize(1, 99) as f64 / 100.0,
    };
    g.note(|| format!("{effect:?}: text {text:?} title {title:?} subtitle {sub:?} in {w}x{h}, edges t r b l {:?} padding {:?}", b.kinds.map(|k| k.map(|k| KINDS[k].0)), [pt, pr, pb, pl]));
    let mut touched = 0;
    macro_rules! compare {
        ($after:expr, |$x:ident, $y:ident, $old:ident, $new:ident| $body:block) => {
            for ($x, $y) in cells() {
                let ($old, $new) = (&before[$y * w + $x], &$after[$y * w + $x]);
                if $old != $new {
                    touched += 1;
                }
                let ok: Result<(), &str> = $body;
                if let Err(m) = ok {
                    fail!("{effect:?}: cell {},{} {m}\n without: {:?}\n with: {:?}\n without {}\n with {}", $x, $y, $old, $new, show_got(&before, w, 0, 0, w, h), show_got(&$after, w, 0, 0, w, h));
                }
            }
        };
    }
    match effect {
        Tint => {
            let a = frac(g);
            let t = opaque(g);
            style.tint = Some(RgbaColor { a: a as f32, ..t.clone() });
            let t = flat(Some(&t));
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if old.glyph != new.glyph || old.attrs != new.attrs {
                    Err("shows something else")
                } else if !near(new.bg, mixed(old.bg, t, a)) || (lead(old) && !near(new.fg, mixed(old.fg, t, a))) {
                    Err("is not tinted by the amount given")
                } else {
                    Ok(())
                }
            });
        }
        BackgroundTint => {
            let a = frac(g);
            let t = opaque(g);
            style.background_tint = Some(RgbaColor { a: a as f32, ..t.clone() });
            let t = flat(Some(&t));
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if old.glyph != new.glyph || old.attrs != new.attrs || (lead(old) && old.fg != new.fg) {
                    Err("shows something else")
                } else if inner(x, y) && !near(new.bg, mixed(old.bg, t, a)) {
                    Err("has not the tinted background")
                } else {
                    Ok(())
                }
            });
        }
        TextOpacity => {
            let o = frac(g);
            style.text_opacity = o;
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if !content(x, y) {
                    if old == new || (blank(old) && blank(new) && old.bg == new.bg) { Ok(()) } else { Err("lies outside the text and changed") }
                } else if new.bg != old.bg {
                    Err("has another background")
                } else if o == 0.0 {
                    if blank(new) { Ok(()) } else { Err("shows text of opacity zero") }
                } else if old.glyph != new.glyph || old.attrs != new.attrs {
                    Err("shows something else")
                } else if lead(old) && !near(new.fg, mixed(old.bg, old.fg, o)) {
                    Err("has not the opacity given")
                } else {
                    Ok(())
                }
            });
        }
        Opacity => {
            let o = frac(g);
            style.opacity = o;
            let under = flat(style.inherited_background.as_ref());
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                // the frame and the ground are drawn through it twice (documented in the code), text once
                if old.glyph != new.glyph || old.attrs != new.attrs {
                    Err("shows something else")
                } else if inner(x, y) {
                    if !near(new.bg, mixed(under, old.bg, o * o)) {
                        Err("has a background of another opacity")
                    } else if lead(old) && !near(new.fg, mixed(under, old.fg, o)) {
                        Err("has text of another opacity")
                    } else {
                        Ok(())
                    }
                } else {
                    let plain = b.kinds.iter().flatten().all(|k| KINDS[*k].2);
                    if plain && lead(old) && !near(new.fg, mixed(under, old.fg, o * o)) {
                        Err("has a frame of another opacity")
                    } else if plain && !near(new.bg, mixed(under, old.bg, o * o)) {
                        Err("has a frame's ground of another opacity")
                    } else {
                        Ok(())
                    }
                }
            });
        }
        LinePad => {
            let n = g.u16(1, 3);
            if w < bl + br + pl + pr + 2 * n as usize + 2 {
                return Ok(());
            }
            style.line_pad = n;
            let after = draw(&style);
            let mut padded = b.style.clone();
            padded.padding.left.value += n as f64;
            padded.padding.right.value += n as f64;
            let want = draw(&padded);
            compare!(after, |x, y, _old, new| {
                let want = &want[y * w + x];
                if new.glyph != want.glyph || new.bg != want.bg || (lead(new) && (new.fg != want.fg || new.attrs != want.attrs)) {
                    Err("differs from the same box with that much more padding left and right")
                } else {
                    Ok(())
                }
            });
        }
        Outline => {
            let color = opaque(g);
            let k0 = g.usize(0, KINDS.len() - 1);
            let uniform = g.bool();
            let kinds: [Option<usize>; 4] = std::array::from_fn(|_| if uniform { Some(k0) } else if g.bool() { Some(if g.bool() { k0 } else { g.usize(0, KINDS.len() - 1) }) } else { None });
            let e = |k: Option<usize>| BorderEdge { kind: k.map_or(BorderKind::None, |k| KINDS[k].0), color: Some(color.clone()) };
            (style.outline.top, style.outline.right, style.outline.bottom, style.outline.left) = (e(kinds[0]), e(kinds[1]), e(kinds[2]), e(kinds[3]));
            g.note(|| format!("outline t r b l {:?}", kinds.map(|k| k.map(|k| KINDS[k].0))));
            let after = draw(&style);
            let [t, r, bo, l] = kinds;
            compare!(after, |x, y, old, new| {
                let side = if x == 0 && l.is_some() { 0 } else if x == w - 1 && r.is_some() { 2 } else { 1 };
                let (k, i) = match (y, side) {
                    (0, s) if t.is_some() => (t, s),
                    (y, s) if y == h - 1 && bo.is_some() => (bo, 5 + s),
                    (_, 0) => (l, 3),
                    (_, 2) => (r, 4),
                    _ => (None, 0),
                };
                match k {
                    None => {
                        // a wide character half of which the outline covers becomes a blank
                        let cut = blank(new) && (old.glyph == Glyph::Cont || matches!(&old.glyph, Glyph::Lead(s) if gw(s) == 2));
                        if old == new || (blank(old) && blank(new) && old.bg == new.bg) || (cut && new.bg == old.bg) { Ok(()) } else { Err("lies inside the outline and changed") }
                    }
                    Some(k) => {
                        let ch = KINDS[k].1.chars().nth(i).unwrap().to_string();
                        if new.glyph != Glyph::Lead(ch.clone()) {
                            Err("does not show the outline's character")
                        } else if KINDS[k].2 && ((ch != " " && new.fg != flat(Some(&color))) || new.bg != b.bg()) {
                            Err("does not show the outline in its colour on the box's background")
                        } else {
                            Ok(())
                        }
                    }
                }
            });
        }
        Hatch => {
            let (ch, a, o) = (g.of(&[HatchPattern::Left, HatchPattern::Right, HatchPattern::Cross, HatchPattern::Horizontal, HatchPattern::Vertical]).clone(), frac(g), frac(g));
            let color = opaque(g);
            style.hatch = Some(tcss::types::Hatch { pattern: ch.clone(), color: RgbaColor { a: a as f32, ..color.clone() }, opacity: o as f32 });
            g.note(|| format!("hatch {color:?} alpha {a} opacity {o}"));
            let sign = Glyph::Lead(match ch {
                HatchPattern::Left => "╲",
                HatchPattern::Right => "╱",
                HatchPattern::Cross => "╳",
                HatchPattern::Horizontal => "─",
                _ => "│",
            }.to_string());
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if !inner(x, y) || lead(old) {
                    if new == old { Ok(()) } else { Err("is not blank inside the frame and changed") }
                } else if new.glyph != sign || new.bg != old.bg {
                    Err("is not hatched")
                } else if a * o > 0.0 && !near(new.fg, mixed(old.bg, flat(Some(&color)), a * o)) {
                    Err("is hatched in another colour")
                } else {
                    Ok(())
                }
            });
        }
        Attributes => {
            style.text_style = text_style(g);
            let want = attributes(&style.text_style);
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if !content(x, y) {
                    if new == old || (blank(new) && blank(old) && new.bg == old.bg) { Ok(()) } else { Err("is not text and changed") }
                } else if new.glyph != old.glyph || new.bg != old.bg || (lead(old) && (new.fg != old.fg || new.attrs != want)) {
                    Err("is not text in the attributes asked for")
                } else {
                    Ok(())
                }
            });
        }
        TitleAttributes => {
            style.border_title_style = text_style(g);
            style.border_subtitle_style = text_style(g);
            let after = draw(&style);
            let [ta, sa] = [attributes(&style.border_title_style), attributes(&style.border_subtitle_style)];
            compare!(after, |x, y, old, new| {
                if new.glyph != old.glyph || new.bg != old.bg || (lead(old) && new.fg != old.fg) {
                    Err("shows something else")
                } else if (y > 0 || title.is_none()) && (y + 1 < h || sub.is_none()) && new.attrs != old.attrs {
                    Err("is neither title nor subtitle and has other attributes")
                } else {
                    Ok(())
                }
            });
            for (y, e, t, a) in [(0, E::Top, &title, ta), (h - 1, E::Bottom, &sub, sa)] {
                let Some(t) = t else { continue };
                if !b.has(e) && bl + br == 0 {
                    continue; // a title in a row without sides is not stated
                }
                let n = t.chars().count();
                if n + 2 + 2 > w - bl - br {
                    continue; // may be cut
                }
                let row = &after[y * w..(y + 1) * w];
                let shown: Vec<String> = row.iter().map(|c| if let Glyph::Lead(s) = &c.glyph { s.clone() } else { String::new() }).collect();
                let at = (0..=w - n).find(|i| shown[*i..i + n].concat() == *t);
                let Some(at) = at else { fail!("{t:?} is not in its row {:?}", shown.concat()) };
                for (x, c) in row.iter().enumerate() {
                    let inside = x >= at && x < at + n;
                    let beside = x + 1 == at || x == at + n;
                    ensure!(beside || (!inside && blank(c)) || c.attrs == if inside { a } else { before[y * w + x].attrs }, "title style: cell {x} of row {y} ({:?}) has the attributes {:?}, the label's style is {a:?}", shown.concat(), c.attrs);
                }
            }
        }
        AutoColor => {
            let ratio = frac(g);
            style.auto_color = true;
            style.color = Some(RgbaColor { a: ratio as f32, ..opaque(g) });
            for e in [&mut style.border.top, &mut style.border.right, &mut style.border.bottom, &mut style.border.left] {
                e.color = Some(opaque(g));
            }
            let ink = b.style.background.as_ref().unwrap().get_contrasting_color(ratio as f32);
            let want = mixed(b.bg(), flat(Some(&ink)), ink.a as f64);
            let after = draw(&style);
            compare!(after, |x, y, old, new| {
                if new.glyph != old.glyph {
                    Err("shows something else")
                } else if content(x, y) && (new.bg != old.bg || (lead(old) && !near(new.fg, want))) {
                    Err("is not text in the contrast colour")
                } else {
                    Ok(())
                }
            });
        }
    }
    g.key(&(text, w, h, touched));
    g.nontrivial_if(touched > 0);
    Ok(())
}

pub const P23: Property = Property {
    id: "C23",
    rule: "the box has a border and room for its text (box); the text needed wrapping (size); the effect changes the picture (effects)",
    assumptions: &["opaque colours and full opacity for the exact colour comparison", "corner cells are stated only when both sides have a border", "the wrapping of the text itself is C09's"],
    parts: &[
        Part { name: "box", quick: 360_000, thorough: 3_000_000, f: text_box },
        Part { name: "size", quick: 360_000, thorough: 3_000_000, f: auto_size },
        Part { name: "effects", quick: 360_000, thorough: 3_000_000, f: effects },
    ],
};
