//! C29: the widgets that show something: placeholder, header, ruler, spinner, label, button variants, tooltip, standalone
//! scrollbar and corner. Each shows what it stands for, and none paints outside the region it is given.
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::c23_box::{opaque, random_style};
use crate::common::*;
use crate::engine::{G, Part, Property, R};
use crate::trees::mouse_event;
use crate::{ensure, ensure_eq, fail};
use crossterm::event::{MouseButton, MouseEventKind};
use std::collections::VecDeque;
use tcss::WidgetStates;
use tcss::types::{ComputedStyle, RgbaColor, Scalar, Spacing, Theme, Unit, Visibility};
use textual::scroll::ScrollMessage;
use textual::style_resolver::resolve_styles;
use textual::{
    LabelVariant, Tooltip, Button, Canvas, Header, Input, KeyCode, Label, LoadingIndicator, OptionList, Placeholder, PlaceholderVariant, Region,
    Ruler, ScrollBar, ScrollBarCorner, Static, Switch, Vertical, Widget, reset_placeholder_counter,
};

type Rgb = Option<(u8, u8, u8)>;
const UNDER: (u8, u8, u8) = (7, 77, 177);

thread_local! {
    static THEME: Theme = Theme::standard_themes()["textual-dark"].clone();
}
fn theme() -> Theme {
    THEME.with(|t| t.clone())
}

fn rgb(c: &RgbaColor) -> Rgb {
    Some((c.r, c.g, c.b))
}

/// A canvas of dots on a known background.
fn dotted(w: u16, h: u16) -> Canvas {
    let mut c = Canvas::new(w, h);
    for y in 0..h as i32 {
        for x in 0..w as i32 {
            c.put_char(x, y, '.', None, Some(RgbaColor::rgb(UNDER.0, UNDER.1, UNDER.2)), Default::default());
        }
    }
    c
}

fn region(g: &mut G, w: u16, h: u16) -> Region {
    let (x, y) = (g.i32(0, w as i32 - 1), g.i32(0, h as i32 - 1));
    Region::new(x, y, g.i32(0, w as i32 - x), g.i32(0, h as i32 - y))
}

fn inside(r: &Region, x: i32, y: i32) -> bool {
    x >= r.x && y >= r.y && x < r.x + r.width && y < r.y + r.height
}

fn untouched(m: &MCell) -> bool {
    m.glyph == Glyph::Lead(".".into()) && m.bg == Some(UNDER)
}

fn outside_untouched(cells: &[MCell], w: u16, r: &Region, what: &str) -> R {
    for (i, m) in cells.iter().enumerate() {
        let (x, y) = (i as i32 % w as i32, i as i32 / w as i32);
        ensure!(inside(r, x, y) || untouched(m), "{what} painted {:?} at {x},{y}, outside {r:?}", m.glyph);
    }
    Ok(())
}

fn any_text(g: &mut G) -> String {
    let n = g.usize(0, 4);
    let l: Vec<String> = (0..n).map(|_| line(g, 4, 8)).collect();
    l.join("\n")
}

/// Any built-in widget in any state.
fn any_widget(g: &mut G) -> (&'static str, Box<dyn Widget<u32>>) {
    match g.below(13) {
        0 => {
            let mut p = Placeholder::new().with_variant(*g.of(&[PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text]));
            if g.bool() {
                p = p.with_label(any_text(g));
            }
            if g.bool() {
                p = p.with_id(ident(g));
            }
            ("Placeholder", Box::new(p))
        }
        1 => {
            let v = g.bool();
            let mut s = Switch::new(v, |v| v as u32).with_loading(g.chance(1, 3)).with_focus(g.bool()).with_disabled(g.chance(1, 4));
            if g.bool() {
                s = s.with_spinner_frame(g.usize(0, 30));
            }
            ("Switch", Box::new(s))
        }
        2 => ("LoadingIndicator", Box::new(LoadingIndicator::new())),
        3 => ("Ruler", Box::new(if g.bool() { Ruler::vertical() } else { Ruler::horizontal() })),
        4 => {
            let mut b = ScrollBar::new(g.bool(), |_| 1u32);
            let total = g.u16(1, 200) as f32;
            let win = g.u16(1, 60) as f32;
            b.update(total, win, (g.u16(0, 200) as f32).min((total - win).max(0.0)));
            ("ScrollBar", Box::new(b))
        }
        5 => ("ScrollBarCorner", Box::new(ScrollBarCorner::new(g.u16(0, 9), g.u16(0, 9)))),
        6 => {
            let mut t = Tooltip::new();
            if g.chance(4, 5) {
                t.show(any_text(g));
            }
            t.set_position(g.i32(-5, 30), g.i32(-5, 14));
            ("Tooltip", Box::new(t))
        }
        7 => {
            let mut i: Input<u32> = Input::new();
            if g.bool() {
                i = i.with_placeholder(line(g, 3, 6));
            }
            let mut i: Box<dyn Widget<u32>> = Box::new(i);
            i.set_focus(g.bool());
            for ch in line(g, 3, 6).chars() {
                i.on_event(KeyCode::Char(ch));
            }
            ("Input", i)
        }
        8 => {
            let n = g.usize(0, 6);
            let mut o: OptionList<u32> = OptionList::new((0..n).map(|_| any_text(g)).collect());
            o.set_selected(g.usize(0, 6));
            ("OptionList", Box::new(o))
        }
        9 => {
            let mut h: Header<u32> = Header::new(line(g, 4, 8));
            if g.bool() {
                h = h.with_subtitle(line(g, 3, 8));
            }
            ("Header", Box::new(h))
        }
        10 => ("Button", Box::new(Button::new(any_text(g)))),
        11 => {
            let mut l: Label<u32> = Label::new(any_text(g));
            if g.bool() {
                l = l.with_border_title(word(g, 8));
            }
            ("Label", Box::new(l))
        }
        _ => {
            let mut s: Static<u32> = Static::new(any_text(g));
            if g.bool() {
                s = s.with_border_subtitle(word(g, 8));
            }
            ("Static", Box::new(s))
        }
    }
}

fn bounds(g: &mut G) -> R {
    let (w, h) = (30, 14);
    let (name, mut wid) = any_widget(g);
    let mut style = random_style(g);
    let hidden = g.chance(1, 8);
    if hidden {
        style.visibility = Visibility::Hidden;
    }
    let resolved = g.chance(1, 3);
    if resolved {
        let theme = theme();
        let css = if hidden { format!("{name} {{ visibility: hidden; }}") } else { String::new() };
        let Ok(sheet) = tcss::parser::parse_stylesheet(&format!("{}\n{css}", wid.default_css())) else { fail!("default css of {name}") };
        resolve_styles(wid.as_mut(), &sheet, &theme, &mut VecDeque::new());
    } else {
        wid.set_style(style);
    }
    let r = region(g, w, h);
    g.note(|| format!("{name} in {r:?}, hidden {hidden}"));
    let mut c = dotted(w, h);
    wid.render(&mut c, r);
    let cells = canvas_cells(&c);
    if hidden && (resolved || name != "Header") {
        let painted = cells.iter().filter(|m| !untouched(m)).count();
        ensure_eq!(painted, 0, "cells painted by a hidden {name}");
    }
    outside_untouched(&cells, w, &r, name)?;
    // the same thing again gives the same picture, and so does the part of it inside a clip
    let mut again = dotted(w, h);
    wid.render(&mut again, r);
    ensure!(canvas_cells(&again) == cells, "{name} drawn twice gives two pictures");
    g.key(&(name, r.width, r.height));
    g.label(name);
    g.nontrivial_if(cells.iter().any(|m| !untouched(m)));
    Ok(())
}

/// Greedy wrapping of words; a word longer than the line is cut into pieces.
fn wrap(text: &str, room: usize) -> Vec<String> {
    let mut out = vec![];
    for para in text.split('\n') {
        if para.is_empty() {
            out.push(String::new());
            continue;
        }
        let mut cur: Option<String> = None;
        for wd in para.split_whitespace() {
            if let Some(c) = &mut cur {
                if width(c) + 1 + width(wd) <= room {
                    c.push(' ');
                    c.push_str(wd);
                    continue;
                }
                out.push(cur.take().unwrap());
            }
            let mut piece = String::new();
            for q in graphemes(wd) {
                if !piece.is_empty() && width(&piece) + gw(q) > room {
                    out.push(std::mem::take(&mut piece));
                }
                piece.push_str(q);
            }
            cur = Some(piece);
        }
        out.extend(cur);
    }
    out
}

/// A row of cells as text: one entry per cell, "" for the second half of a wide character.
fn cell_text(m: &MCell) -> String {
    match &m.glyph {
        Glyph::Lead(s) => s.clone(),
        Glyph::Cont => String::new(),
    }
}

const PALETTE: [u32; 12] =
    [0x881177, 0xaa3355, 0xcc6666, 0xee9944, 0xeedd00, 0x99dd55, 0x44dd88, 0x22ccbb, 0x00bbcc, 0x0099cc, 0x3366bb, 0x663399];

fn placeholder(g: &mut G) -> R {
    reset_placeholder_counter();
    let skip = g.usize(0, 26);
    for _ in 0..skip {
        let _ = Placeholder::new();
    }
    let label = g.chance(2, 3).then(|| if g.chance(1, 4) { any_text(g) } else { line(g, 5, 9) });
    let id = g.bool().then(|| ident(g));
    let mut v = g.usize(0, 2);
    const V: [PlaceholderVariant; 3] = [PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text];
    let mut p = Placeholder::new().with_variant(V[v]);
    if let Some(l) = &label {
        p = p.with_label(l.clone());
    }
    if let Some(i) = &id {
        p = p.with_id(i.clone());
    }
    let (w, h) = (g.u16(4, 40), g.u16(3, 14));
    let r = Region::new(g.i32(0, 2), g.i32(0, 1), 0, 0);
    let mut r = Region::new(r.x, r.y, g.i32(1, w as i32 - r.x), g.i32(1, h as i32 - r.y));
    let pad = |g: &mut G| if g.chance(2, 3) { 0 } else { g.i32(0, 3) };
    let [pt, pr, pb, pl] = [pad(g), pad(g), pad(g), pad(g)];
    let own = g.bool().then(|| opaque(g));
    let inherited = opaque(g);
    let fg = g.bool().then(|| opaque(g));
    let sc = |v: i32| Scalar { value: v as f64, unit: Unit::Cells };
    Widget::<u32>::set_style(
        &mut p,
        ComputedStyle {
            color: fg.clone(),
            background: own.clone(),
            inherited_background: Some(inherited.clone()),
            padding: Spacing { top: sc(pt), right: sc(pr), bottom: sc(pb), left: sc(pl) },
            ..Default::default()
        },
    );
    let bg = own.as_ref().map_or_else(
        || {
            let c = PALETTE[skip % 12];
            let m = |c: u32, u: u8| ((c & 255) as f64 + u as f64) / 2.0;
            [m(c >> 16, inherited.r), m(c >> 8, inherited.g), m(c, inherited.b)]
        },
        |c| [c.r as f64, c.g as f64, c.b as f64],
    );
    g.note(|| format!("placeholder {} label {label:?} id {id:?} padding {pt} {pr} {pb} {pl}", skip));
    let steps = g.usize(0, 4);
    let mut shown = false;
    for step in 0..=steps {
        if step > 0 {
            match g.below(6) {
                0 => {
                    v = g.usize(0, 2);
                    g.note(|| format!("set variant {v}"));
                    p.set_variant(V[v]);
                }
                1 => {
                    r = Region::new(r.x, r.y, g.i32(1, w as i32 - r.x), g.i32(1, h as i32 - r.y));
                    g.note(|| format!("now in {r:?}"));
                }
                k => {
                    let (x, y) = (g.u16(0, w), g.u16(0, h));
                    let kind = *g.of(&[MouseEventKind::Moved, MouseEventKind::Up(MouseButton::Left), MouseEventKind::Down(MouseButton::Left)]);
                    let kind = if k > 2 { MouseEventKind::Down(MouseButton::Left) } else { kind };
                    g.note(|| format!("{kind:?} at {x},{y}"));
                    let got: Option<u32> = p.on_mouse(mouse_event(kind, x, y), r);
                    ensure_eq!(got, None, "message");
                    if matches!(kind, MouseEventKind::Down(_)) && inside(&r, x as i32, y as i32) {
                        v = (v + 1) % 3;
                    }
                }
            }
        }
        ensure_eq!(p.variant(), V[v], "variant");
        let mut c = dotted(w, h);
        Widget::<u32>::render(&p, &mut c, r);
        let cells = canvas_cells(&c);
        outside_untouched(&cells, w, &r, "placeholder")?;
        // the text block
        let (mut bx, mut by, mut bw, mut bh) = (r.x + pl, r.y + pt, r.width - pl - pr, r.height - pt - pb);
        let room = bw > 0 && bh > 0;
        if v == 2 {
            bx += 1;
            by += 1;
            bw = (bw - 2).max(1);
            bh = (bh - 2).max(1);
        }
        let lines: Vec<String> = match v {
            0 => wrap(&label.clone().or(id.as_ref().map(|i| format!("#{i}"))).unwrap_or("Placeholder".into()), bw.max(1) as usize),
            1 => vec![format!("{} x {}", r.width, r.height)],
            _ => {
                let one = "Lorem ipsum dolor sit amet, consectetur adipiscing elit. Etiam feugiat ac elit sit amet accumsan. Suspendisse bibendum nec libero quis gravida. Phasellus id eleifend ligula. Nullam imperdiet sem tellus, sed vehicula nisl faucibus sit amet. Praesent iaculis tempor ultricies. Sed lacinia, tellus id rutrum lacinia, sapien sapien congue mauris, sit amet pellentesque quam quam vel nisl. Curabitur vulputate erat pellentesque mauris posuere, non dictum risus mattis.";
                wrap(&[one; 5].join("\n\n"), bw as usize)
            }
        };
        if v == 2 && (r.width - pl - pr < 3 || r.height - pt - pb < 3) {
            continue; // no room for the text and the margin around it
        }
        let seen = &lines[..lines.len().min(bh.max(0) as usize)];
        let block = if v == 2 { seen } else { &lines[..] };
        let widest = block.iter().map(|l| width(l)).max().unwrap_or(0) as i32;
        let x0 = bx + ((bw - widest) / 2).max(0);
        let y0 = by + ((bh - block.len() as i32) / 2).max(0);
        for y in r.y..r.y + r.height {
            // the line of text in this row, by column
            let mut want: Vec<(String, bool)> = vec![(" ".into(), false); r.width as usize];
            let li = y - y0;
            if room && li >= 0 && (li as usize) < seen.len() && y < r.y + r.height - pb.max(0) {
                let mut x = x0;
                for q in graphemes(&seen[li as usize]) {
                    let n = gw(q) as i32;
                    for k in 0..n {
                        let col = x + k - r.x;
                        if col >= 0 && col < r.width && (x + k) < bx + bw {
                            // half a wide character at the edge is a blank
                            let whole = x + n <= bx + bw;
                            want[col as usize] = (if !whole { " ".into() } else if k == 0 { q.to_string() } else { String::new() }, true);
                        }
                    }
                    x += n;
                }
            }
            for x in r.x..r.x + r.width {
                let m = &cells[(y * w as i32 + x) as usize];
                let (t, text) = &want[(x - r.x) as usize];
                ensure_eq!(&cell_text(m), t, "cell {x},{y} of variant {v} in {r:?} (lines {seen:?})");
                let Some(b) = m.bg else { fail!("no background at {x},{y}") };
                ensure!(
                    (b.0 as f64 - bg[0]).abs() <= 1.0 && (b.1 as f64 - bg[1]).abs() <= 1.0 && (b.2 as f64 - bg[2]).abs() <= 1.0,
                    "background {b:?} at {x},{y} instead of {bg:?}"
                );
                if *text && t != " " && !t.is_empty() {
                    shown = true;
                    ensure_eq!(m.fg, fg.as_ref().map_or(Some((255, 255, 255)), rgb), "ink of {t:?} at {x},{y}");
                    ensure_eq!(m.attrs.bold, v == 1, "bold {t:?} at {x},{y}");
                }
            }
        }
    }
    g.key(&(v, r.width, r.height, label.is_some()));
    g.nontrivial_if(shown);
    Ok(())
}

fn marks(g: &mut G) -> R {
    let (w, h) = (30, 14);
    let r = region(g, w, h);
    let (fg, bg) = (opaque(g), opaque(g));
    let style = ComputedStyle { color: Some(fg.clone()), background: Some(bg.clone()), inherited_background: Some(opaque(g)), ..Default::default() };
    let mut c = dotted(w, h);
    match g.below(3) {
        0 => {
            let vertical = g.bool();
            let mut u: Ruler<u32> = if vertical { Ruler::vertical() } else { Ruler::horizontal() };
            let own = if vertical { "-vertical" } else { "-horizontal" };
            if g.bool() {
                u = u.with_classes("big loud");
                ensure!(u.has_class("big") && u.has_class("loud"), "classes {:?}", u.classes());
            }
            ensure!(u.has_class(own), "the ruler's own class is gone: {:?}", u.classes());
            u.set_style(style);
            g.note(|| format!("ruler vertical {vertical} in {r:?}"));
            u.render(&mut c, r);
            let cells = canvas_cells(&c);
            outside_untouched(&cells, w, &r, "ruler")?;
            for i in 0..if vertical { r.height } else { r.width } {
                let (x, y) = if vertical { (r.x, r.y + i) } else { (r.x + i, r.y) };
                if inside(&r, x, y) {
                    let m = &cells[(y * w as i32 + x) as usize];
                    ensure_eq!(cell_text(m), if i % 5 == 4 { "•" } else { "·" }, "mark {} of the ruler", i + 1);
                    ensure_eq!((m.fg, m.bg), (rgb(&fg), rgb(&bg)), "colours of mark {}", i + 1);
                }
            }
            g.label("ruler");
        }
        1 => {
            let mut l: LoadingIndicator<u32> = LoadingIndicator::new();
            l.set_style(style);
            let n = g.usize(0, 25);
            let mut frames = vec![];
            g.note(|| format!("spinner, {n} ticks, in {r:?}"));
            for i in 0..=n {
                if i > 0 {
                    l.mark_clean();
                    l.tick();
                    ensure!(l.is_dirty(), "a tick leaves the spinner clean");
                }
                let mut c = dotted(w, h);
                l.render(&mut c, r);
                let cells = canvas_cells(&c);
                outside_untouched(&cells, w, &r, "spinner")?;
                if r.width > 0 && r.height > 0 {
                    let m = &cells[(r.y * w as i32 + r.x) as usize];
                    ensure_eq!((m.fg, m.bg), (rgb(&fg), rgb(&bg)), "colours of the spinner");
                    frames.push(cell_text(m));
                }
            }
            for (i, f) in frames.iter().enumerate() {
                ensure!(f.chars().all(|c| ('\u{2801}'..='\u{28ff}').contains(&c)), "{f:?} is no spinner frame");
                if i >= 10 {
                    ensure_eq!(f, &frames[i - 10], "frame {i} after ten ticks");
                }
                for j in i.saturating_sub(9)..i {
                    ensure!(f != &frames[j], "frames {i} and {j} are the same");
                }
            }
            l.set_visible(false);
            let mut c2 = dotted(w, h);
            l.render(&mut c2, r);
            ensure!(canvas_cells(&c2).iter().all(untouched), "an invisible spinner paints");
            g.label("spinner");
        }
        _ => {
            let (mut cw, mut ch) = (g.u16(0, 20), g.u16(0, 10));
            let given = g.bool().then(|| opaque(g));
            let styled = g.bool().then(|| opaque(g));
            let mut k = ScrollBarCorner::new(cw, ch);
            if let Some(c) = &given {
                k = k.with_color(c.clone());
            }
            if g.bool() {
                (cw, ch) = (g.u16(0, 20), g.u16(0, 10));
                k.update_size(cw, ch);
            }
            let mut style = style;
            style.scrollbar.corner_color = styled.clone();
            Widget::<u32>::set_style(&mut k, style);
            let d = Widget::<u32>::desired_size(&k);
            ensure_eq!((d.width, d.height), (cw, ch), "size of the corner");
            Widget::<u32>::render(&k, &mut c, r);
            let cells = canvas_cells(&c);
            let area = Region::new(r.x, r.y, r.width.min(cw as i32), r.height.min(ch as i32));
            outside_untouched(&cells, w, &area, "corner")?;
            for y in area.y..area.y + area.height {
                for x in area.x..area.x + area.width {
                    let m = &cells[(y * w as i32 + x) as usize];
                    ensure_eq!(cell_text(m), " ", "corner at {x},{y}");
                    if let Some(c) = given.as_ref().or(styled.as_ref()) {
                        ensure_eq!(m.bg, rgb(c), "corner colour");
                    }
                }
            }
            g.label("corner");
        }
    }
    g.key(&(r.width, r.height));
    g.nontrivial_if(r.width > 0 && r.height > 0);
    Ok(())
}

/// Words without markup characters.
fn plain(g: &mut G, max: usize) -> String {
    let n = g.usize(0, max);
    (0..n).map(|_| word(g, 6)).collect::<Vec<_>>().join(" ")
}

fn header(g: &mut G) -> R {
    let w = g.u16(30, 90);
    let h = 6u16;
    let mut title = plain(g, 4);
    let mut sub: Option<String> = g.bool().then(|| plain(g, 3));
    let tall = g.chance(1, 3);
    let classes = g.bool();
    let mut hd: Header<u32> = Header::new(title.clone());
    if let Some(s) = &sub {
        hd = hd.with_subtitle(s.clone());
    }
    if g.bool() {
        hd = hd.with_tall(tall);
        if classes {
            hd = hd.with_classes("loud");
        }
    } else {
        if classes {
            hd = hd.with_classes("loud");
        }
        hd = hd.with_tall(tall);
    }
    ensure_eq!((hd.is_tall(), hd.has_class("-tall"), hd.has_class("loud")), (tall, tall, classes), "tall and class");
    g.note(|| format!("width {w} title {title:?} subtitle {sub:?} tall {tall} classes {classes}"));
    let theme = theme();
    let rows = if tall { 3 } else { 1 };
    let steps = g.usize(0, 4);
    let mut armed = false;
    let mut fits_once = false;
    for step in 0..=steps {
        if step > 0 {
            match g.below(3) {
                0 => {
                    title = plain(g, 4);
                    g.note(|| format!("set title {title:?}"));
                    hd.set_title(title.clone());
                }
                1 => {
                    let s = plain(g, 3);
                    g.note(|| format!("set subtitle {s:?}"));
                    hd.set_subtitle(s.clone());
                    sub = Some(s);
                }
                _ => {
                    g.note(|| "clear subtitle".into());
                    hd.clear_subtitle();
                    sub = None;
                }
            }
        }
        ensure_eq!((hd.title(), hd.subtitle()), (title.as_str(), sub.as_deref()), "title and subtitle");
        let mut css = String::new();
        default_css(&mut hd, &mut css);
        let Ok(sheet) = tcss::parser::parse_stylesheet(&css) else { fail!("default css: {css}") };
        resolve_styles(&mut hd, &sheet, &theme, &mut VecDeque::new());
        let st = hd.get_style();
        ensure_eq!(st.height.as_ref().map(|s| s.value), Some(rows as f64), "height of a header, tall {tall}");
        let mut c = dotted(w, h);
        let r = Region::new(0, 1, w as i32, rows);
        hd.render(&mut c, r);
        let cells = canvas_cells(&c);
        outside_untouched(&cells, w, &r, "header")?;
        let mid = r.y + (rows - 1) / 2;
        let row: Vec<String> = (0..w as i32).map(|x| cell_text(&cells[(mid * w as i32 + x) as usize])).collect();
        ensure_eq!(row[1], "⭘", "icon in {row:?}");
        for y in r.y..r.y + rows {
            for x in 0..w as i32 {
                let m = &cells[(y * w as i32 + x) as usize];
                ensure_eq!(m.bg, st.background.as_ref().map_or(None, rgb), "background at {x},{y}");
                if y != mid {
                    ensure_eq!(cell_text(m), " ", "cell {x},{y} above or below the title");
                }
            }
        }
        let full = match sub.as_ref().filter(|s| !s.is_empty()) {
            Some(s) => format!("{title} — {s}"),
            None => title.clone(),
        };
        let area = w as usize - 18;
        let shown: String = row[8..w as usize - 10].concat();
        ensure!(row[w as usize - 10..].iter().all(|t| t == " "), "something in the clock's space: {row:?}");
        ensure!(row[..8].iter().enumerate().all(|(i, t)| i == 1 || t == " "), "something next to the icon: {row:?}");
        if width(&full) <= area {
            let want = format!("{}{full}", " ".repeat((area - width(&full)) / 2));
            ensure_eq!(shown.trim_end(), want.trim_end(), "title line");
            fits_once = true;
        } else {
            let t = shown.trim_end();
            ensure!(t.ends_with('…') && full.starts_with(t[..t.len() - '…'.len_utf8()].trim_end()), "title {full:?} cut to {t:?}");
            ensure!(width(t) + 1 >= area, "title {full:?} cut to {t:?} in {area} cells");
        }
        // the dim part is the subtitle
        if let Some(s) = sub.as_ref().filter(|s| !s.is_empty()) {
            if width(&full) <= area {
                let start = 8 + (area - width(&full)) / 2;
                for x in start..start + width(&full) {
                    let m = &cells[(mid * w as i32 + x as i32) as usize];
                    if cell_text(m).trim().is_empty() {
                        continue;
                    }
                    ensure_eq!(m.attrs.dim, x >= start + width(&full) - width(s) - 2, "dim at {x} ({:?})", cell_text(m));
                }
            }
        }
        // clicks
        for _ in 0..g.usize(0, 3) {
            let far = if g.bool() { 9 } else { w - 1 };
            let (x, y) = (g.u16(0, far), g.u16(0, 5));
            let on_icon = x < 8 && inside(&r, x as i32, y as i32);
            let down = g.bool();
            let kind = if down { MouseEventKind::Down(MouseButton::Left) } else { MouseEventKind::Up(MouseButton::Left) };
            // the screen sends a header only what lies on it
            if !inside(&r, x as i32, y as i32) {
                continue;
            }
            g.note(|| format!("{} at {x},{y}", if down { "down" } else { "up" }));
            hd.on_mouse(mouse_event(kind, x, y), r);
            let mut acts = vec![];
            collect_actions(&mut hd, &mut acts);
            let want: Vec<String> = if !down && armed && on_icon { vec!["app.command_palette".into()] } else { vec![] };
            ensure_eq!(acts, want, "actions");
            g.label_if(!want.is_empty(), "icon pressed");
            armed = if down { armed || on_icon } else { armed && !on_icon };
            if !down && !on_icon {
                // released elsewhere on the header: whether the icon hears of it is not stated
                textual::clear_all_hover(&mut hd);
                set_inactive(&mut hd);
                armed = false;
            }
        }
    }
    g.key(&(w, &title, &sub));
    g.nontrivial_if(fits_once && !title.is_empty());
    Ok(())
}

fn collect_actions(w: &mut dyn Widget<u32>, out: &mut Vec<String>) {
    out.extend(w.take_pending_action());
    w.for_each_child(&mut |c| collect_actions(c, out));
}
fn default_css(w: &mut dyn Widget<u32>, out: &mut String) {
    out.push_str(w.default_css());
    w.for_each_child(&mut |c| default_css(c, out));
}
fn set_inactive(w: &mut dyn Widget<u32>) {
    w.set_active(false);
    w.for_each_child(&mut |c| set_inactive(c));
}

fn variants(g: &mut G) -> R {
    const L: [(LabelVariant, &str); 7] = [
        (LabelVariant::Default, ""),
        (LabelVariant::Success, "success"),
        (LabelVariant::Error, "error"),
        (LabelVariant::Warning, "warning"),
        (LabelVariant::Primary, "primary"),
        (LabelVariant::Secondary, "secondary"),
        (LabelVariant::Accent, "accent"),
    ];
    let user = g.bool();
    let classes_last = g.bool();
    if g.bool() {
        let (v, name) = L[g.usize(0, 6)];
        let mut l: Label<u32> = Label::new("x");
        if user && !classes_last {
            l = l.with_classes("one two");
        }
        l = l.with_variant(v);
        if user && classes_last {
            l = l.with_classes("one two");
        }
        let mut want: Vec<&str> = if user { vec!["one", "two"] } else { vec![] };
        if !name.is_empty() {
            want.push(name);
        }
        let mut got = l.classes();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "classes of a {name:?} label");
        ensure_eq!(l.variant(), Some(v), "variant");
        ensure_eq!(l.get_meta().classes.len(), want.len(), "classes seen by the style sheet");
    } else {
        const B: [&str; 5] = ["default", "primary", "success", "warning", "error"];
        let mut b: Button<u32> = Button::new("x");
        let (mut v, mut flat, mut compact, mut cl) = (0, false, false, false);
        let n = g.usize(0, 6);
        for _ in 0..n {
            match g.below(7) {
                0 => { v = g.usize(0, 4); b = b.with_variant(B[v]) }
                1 => { v = g.usize(0, 4); let n = rand_case(g, B[v]); b.set_variant(n) }
                2 => { flat = g.bool(); b = b.with_flat(flat) }
                3 => { flat = g.bool(); b.set_flat(flat) }
                4 => { compact = g.bool(); b = b.with_compact(compact) }
                5 => { compact = g.bool(); b.set_compact(compact) }
                _ => { cl = true; b = b.with_classes("one") }
            }
            g.note(|| format!("variant {} flat {flat} compact {compact} classes {cl}", B[v]));
            let mut got = b.classes();
            got.sort();
            let mut want = vec![format!("-{}", B[v]), if flat { "-style-flat".into() } else { "-style-default".into() }];
            if compact {
                want.push("-textual-compact".into());
            }
            if cl {
                want.push("one".into());
            }
            want.sort();
            ensure_eq!(got, want, "classes of the button");
        }
    }
    g.nontrivial_if(user || classes_last);
    Ok(())
}

fn bar(g: &mut G) -> R {
    let vertical = g.bool();
    let n = g.i32(2, 24);
    let thick = g.i32(1, 2);
    let r = if vertical { Region::new(g.i32(0, 3), g.i32(0, 3), thick, n) } else { Region::new(g.i32(0, 3), g.i32(0, 3), n, thick) };
    let window = g.u16(1, 40) as f32;
    let total = window + g.u16(1, 160) as f32;
    let max = total - window;
    let mut pos = (g.u16(0, 200) as f32).min(max);
    let mut b = ScrollBar::new(vertical, |m| m);
    b.update(total, window, pos);
    let mut style = ComputedStyle::default();
    let cols: Vec<RgbaColor> = (0..6).map(|i| RgbaColor::rgb(10 + i * 40, 250 - i * 30, 5 + i)).collect();
    style.scrollbar.color = Some(cols[0].clone());
    style.scrollbar.background = Some(cols[1].clone());
    style.scrollbar.color_hover = Some(cols[2].clone());
    style.scrollbar.background_hover = Some(cols[3].clone());
    style.scrollbar.color_active = Some(cols[4].clone());
    style.scrollbar.background_active = Some(cols[5].clone());
    b.set_style(style);
    g.note(|| format!("vertical {vertical} track {n} total {total} window {window} at {pos}"));
    let (mut hover, mut held) = (false, None::<f32>);
    let steps = g.usize(1, 12);
    let mut moved = false;
    for _ in 0..steps {
        // read the thumb: cells that are entirely thumb, and cells it touches
        let mut c = dotted(30, 30);
        b.render(&mut c, r);
        let cells = canvas_cells(&c);
        outside_untouched(&cells, 30, &r, "scrollbar")?;
        let k = if held.is_some() { 4 } else if hover { 2 } else { 0 };
        let (thumb, track) = (rgb(&cols[k]), rgb(&cols[k + 1]));
        let mut touch = vec![];
        for i in 0..n {
            for t in 0..thick {
                let (x, y) = if vertical { (r.x + t, r.y + i) } else { (r.x + i, r.y + t) };
                let m = &cells[(y * 30 + x) as usize];
                let blank = cell_text(m) == " ";
                let cs: Vec<Rgb> = if blank { vec![m.bg] } else { vec![m.fg, m.bg] };
                ensure!(cs.iter().all(|c| *c == thumb || *c == track), "colours {cs:?} at {x},{y}, hover {hover} held {held:?}");
                let on = cs.contains(&thumb);
                let whole = on && !cs.contains(&track);
                if t == 0 {
                    touch.push((on, whole));
                } else {
                    ensure_eq!((on, whole), touch[i as usize], "across the bar at {i}");
                }
            }
        }
        let first = touch.iter().position(|t| t.0).map_or(-1, |p| p as i32);
        let last = touch.iter().rposition(|t| t.0).map_or(-1, |p| p as i32);
        ensure!(first >= 0, "no thumb");
        let len = (window * n as f32 / total).max(1.0);
        let start = (n as f32 - len) * pos / max;
        ensure!(
            (first as f32 - start).abs() <= 1.13 && ((last + 1) as f32 - (start + len)).abs() <= 1.13,
            "thumb over cells {first}..={last} of {n}, but it should be at {start:.2}..{:.2}",
            start + len
        );
        // one event
        let at = if g.chance(1, 3) { g.i32(first, last) } else { g.i32(0, n - 1) };
        let off = g.i32(0, thick - 1);
        let (x, y) = if vertical { (r.x + off, r.y + at) } else { (r.x + at, r.y + off) };
        let out = g.chance(1, 8);
        let (x, y) = if out { (r.x + r.width + g.i32(0, 3), y) } else { (x, y) };
        let btn = MouseButton::Left;
        let kind = match g.weighted(&[3, 3, 4, 2, 1, 1]) {
            0 => MouseEventKind::Moved,
            1 => MouseEventKind::Down(btn),
            2 => MouseEventKind::Drag(btn),
            3 => MouseEventKind::Up(btn),
            4 => MouseEventKind::ScrollDown,
            _ => MouseEventKind::ScrollUp,
        };
        if out && held.is_some() {
            continue; // where a drag goes beyond the bar is not stated
        }
        g.note(|| format!("{kind:?} at {at}{} (thumb {first}..={last})", if out { " outside" } else { "" }));
        let got = b.on_mouse(mouse_event(kind, x as u16, y as u16), r);
        let (back, fore) = if vertical { (ScrollMessage::ScrollUp, ScrollMessage::ScrollDown) } else { (ScrollMessage::ScrollLeft, ScrollMessage::ScrollRight) };
        if out {
            ensure!(got.is_none(), "message from outside: {got:?}");
            hover = false;
            continue;
        }
        let st = |b: &ScrollBar<ScrollMessage, _>| b.get_state();
        match kind {
            MouseEventKind::Moved => {
                ensure!(got.is_none(), "message");
                hover = true;
            }
            MouseEventKind::Down(_) => {
                // a cell the thumb only touches may count as either
                let (on, whole) = touch[at as usize];
                if whole {
                    ensure!(got.is_none(), "pressing the thumb at {at}");
                }
                if got.is_none() {
                    ensure!(on, "pressing the track at {at} does nothing; thumb {first}..={last}");
                    held = Some(at as f32 - start);
                    ensure!(st(&b).contains(WidgetStates::ACTIVE), "grabbed but not active");
                } else {
                    let want = if at < first || (on && at == first && first != last) { back.clone() } else { fore.clone() };
                    if first != last || !on {
                        ensure_eq!(format!("{got:?}"), format!("{:?}", Some(want)), "pressing the track at {at}, thumb {first}..={last}");
                    }
                    // (a press while held starts afresh or not: end the drag)
                    if held.is_some() {
                        b.set_active(false);
                        held = None;
                        hover = false;
                    }
                }
            }
            MouseEventKind::Drag(_) => match held {
                None => ensure!(got.is_none(), "dragging without holding the thumb"),
                Some(_) => {
                    let Some(ScrollMessage::ScrollTo { x, y, animate }) = got else { fail!("dragging gives {got:?}") };
                    ensure!(!animate, "a drag does not animate");
                    let (this, other) = if vertical { (y, x) } else { (x, y) };
                    ensure_eq!(other, None, "the other axis");
                    let Some(to) = this else { fail!("no position") };
                    let to = to.clamp(0.0, max);
                    // the thumb follows the pointer: what it moved in cells is what the pointer moved
                    let new_start = (n as f32 - len) * to / max;
                    let wanted = at as f32 - held.unwrap();
                    let wanted = wanted.clamp(0.0, (n as f32 - len).max(0.0));
                    ensure!((new_start - wanted).abs() <= 1.01, "dragged from {held:?} to {at}: thumb goes from {start:.2} to {new_start:.2}");
                    moved |= (to - pos).abs() > 0.5;
                    pos = to;
                    b.update(total, window, pos);
                }
            },
            MouseEventKind::Up(_) => {
                ensure!(got.is_none(), "message on release");
                if held.take().is_some() {
                    hover = true;
                    ensure!(!st(&b).contains(WidgetStates::ACTIVE), "still active after release");
                }
            }
            MouseEventKind::ScrollDown => ensure_eq!(format!("{got:?}"), format!("{:?}", Some(fore)), "wheel"),
            _ => ensure_eq!(format!("{got:?}"), format!("{:?}", Some(back)), "wheel"),
        }
    }
    g.key(&(n, total as i32, window as i32));
    g.nontrivial_if(moved);
    Ok(())
}

fn tooltip(g: &mut G) -> R {
    let (w, h) = (g.u16(10, 60), g.u16(4, 20));
    let text = (0..g.usize(1, 3)).map(|_| {
        let n = g.usize(1, 6);
        (0..n).map(|_| word(g, 8)).collect::<Vec<_>>().join(" ")
    }).collect::<Vec<_>>().join("\n");
    let mut style = ComputedStyle { color: Some(opaque(g)), background: Some(opaque(g)), inherited_background: Some(opaque(g)), ..Default::default() };
    let pad = |g: &mut G, hi: i32| Scalar { value: g.i32(0, hi) as f64, unit: Unit::Cells };
    style.padding = Spacing { top: pad(g, 1), right: pad(g, 2), bottom: pad(g, 1), left: pad(g, 2) };
    let (pl, pr) = (style.padding.left.value as i32, style.padding.right.value as i32);
    let (pt, pb) = (style.padding.top.value as i32, style.padding.bottom.value as i32);
    style.width = Some(Scalar { value: 0.0, unit: Unit::Auto });
    // A bound of so many cells, or a share of the screen.
    let share = |g: &mut G, n: u16| {
        let v = g.i32(1, 100);
        if v * n as i32 % 100 == 50 { 100 } else { v } // no halves
    };
    let bound = |g: &mut G, full: u16| -> (Scalar, i32) {
        match g.below(4) {
            0 => { let v = g.i32(0, 25); (Scalar { value: v as f64, unit: Unit::Cells }, v) }
            1 => { let v = share(g, full); (Scalar { value: v as f64, unit: Unit::Percent }, (v as f64 * full as f64 / 100.0).round() as i32) }
            2 => { let v = share(g, w); (Scalar { value: v as f64, unit: Unit::ViewWidth }, (v as f64 * w as f64 / 100.0).round() as i32) }
            _ => { let v = share(g, h); (Scalar { value: v as f64, unit: Unit::ViewHeight }, (v as f64 * h as f64 / 100.0).round() as i32) }
        }
    };
    let maxw = g.bool().then(|| bound(g, w));
    let minw = g.chance(1, 3).then(|| bound(g, w));
    let maxh = g.chance(1, 3).then(|| bound(g, h));
    let minh = g.chance(1, 3).then(|| bound(g, h));
    let fixh = g.chance(1, 4).then(|| bound(g, h));
    style.max_width = maxw.as_ref().map(|b| b.0);
    style.min_width = minw.as_ref().map(|b| b.0);
    style.max_height = maxh.as_ref().map(|b| b.0);
    style.min_height = minh.as_ref().map(|b| b.0);
    style.height = fixh.as_ref().map(|b| b.0).or(g.bool().then_some(Scalar { value: 0.0, unit: Unit::Auto }));
    let longest = text.split('\n').map(width).max().unwrap() as i32;
    let mut tw = longest + pl + pr;
    if let Some(b) = &maxw { tw = tw.min(b.1) }
    if let Some(b) = &minw { tw = tw.max(b.1) }
    let inner = (tw - pl - pr).max(0);
    let bg = rgb(style.background.as_ref().unwrap());
    let mut t: Tooltip<u32> = Tooltip::new();
    let (x, y) = (g.i32(-8, w as i32), g.i32(-4, h as i32));
    g.note(|| format!("screen {w}x{h}, {text:?} at {x},{y}, max-width {maxw:?} min-width {minw:?} height {fixh:?} {minh:?}..{maxh:?}, padding {pt} {pr} {pb} {pl}"));
    t.set_position(x, y);
    t.show(text.clone());
    t.set_style(style);
    let screen = Region::new(0, 0, w as i32, h as i32);
    let mut c = dotted(w, h);
    t.render(&mut c, screen);
    let cells = canvas_cells(&c);
    // its box
    let rows: Vec<i32> = (0..h as i32).filter(|r| (0..w as i32).any(|q| !untouched(&cells[(r * w as i32 + q) as usize]))).collect();
    let cols: Vec<i32> = (0..w as i32).filter(|q| (0..h as i32).any(|r| !untouched(&cells[(r * w as i32 + q) as usize]))).collect();
    let want_cols: Vec<i32> = (x.max(0)..(x + tw).min(w as i32)).collect();
    // the number of rows the text needs is what the text properties say; fixed and bounded heights are exact
    let mut lo = 1 + pt + pb;
    let mut hi = if inner == 0 { 0 } else { wrap(&text, inner as usize).len() as i32 * 3 + 3 + pt + pb };
    if inner >= longest {
        lo = text.split('\n').count() as i32 + pt + pb;
        hi = lo;
    }
    if let Some(b) = &fixh { (lo, hi) = (b.1, b.1) }
    if let Some(b) = &maxh { (lo, hi) = (lo.min(b.1), hi.min(b.1)) }
    if let Some(b) = &minh { (lo, hi) = (lo.max(b.1), hi.max(b.1)) }
    let exact = lo == hi;
    if inner > 0 && exact {
        let want_rows: Vec<i32> = (y.max(0)..(y + lo).min(h as i32)).collect();
        if want_rows.is_empty() || want_cols.is_empty() {
            ensure!(rows.is_empty() && cols.is_empty(), "painted rows {rows:?} columns {cols:?} though it lies outside");
        } else {
            ensure_eq!(rows, want_rows, "rows of the tooltip");
            ensure_eq!(cols, want_cols, "columns of the tooltip");
            for r in &rows {
                for q in &cols {
                    ensure_eq!(cells[(r * w as i32 + q) as usize].bg, bg, "background at {q},{r}");
                }
            }
            if x >= 0 && y >= 0 && x + tw <= w as i32 && y + lo <= h as i32 && inner >= longest && fixh.is_none() && maxh.is_none() && minh.is_none() {
                for (i, l) in text.split('\n').enumerate() {
                    let ry = y + pt + i as i32;
                    let got: String = (x + pl..x + tw).map(|q| cell_text(&cells[(ry * w as i32 + q) as usize])).collect();
                    ensure_eq!(got.trim_end(), l.trim_end(), "line {i} of the tooltip");
                }
                g.label("whole text checked");
            }
        }
    }
    // hidden: nothing; shown again: the new text
    t.hide();
    let mut c = dotted(w, h);
    t.render(&mut c, screen);
    ensure!(canvas_cells(&c).iter().all(untouched), "a hidden tooltip paints");
    g.key(&(tw, lo, x, y));
    g.nontrivial_if(inner > 0 && exact && !rows.is_empty());
    Ok(())
}

/// Two placeholders and their neighbours in real containers: each keeps to its place.
fn neighbours(g: &mut G) -> R {
    let (w, h) = (g.u16(6, 30), g.u16(4, 14));
    let n = g.usize(1, 4);
    let mut kids: Vec<Box<dyn Widget<u32>>> = vec![];
    let mut css = String::from("Vertical { width: 100%; height: 100%; }\n");
    let mut hs = vec![];
    for i in 0..n {
        let ht = g.u16(1, 4);
        hs.push(ht);
        let (name, wid) = {
            let v = *g.of(&[PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text]);
            ("Placeholder", Box::new(Placeholder::new().with_label(line(g, 6, 9)).with_id(format!("p{i}")).with_variant(v)))
        };
        css.push_str(&format!("{name}#p{i} {{ width: 100%; height: {ht}; background: rgb({},0,9); color: white; }}\n", 10 + i * 20));
        kids.push(wid);
    }
    let mut root: Box<dyn Widget<u32>> = Box::new(Vertical::new(kids));
    let Ok(sheet) = tcss::parser::parse_stylesheet(&css) else { fail!("css {css}") };
    resolve_styles(root.as_mut(), &sheet, &theme(), &mut VecDeque::new());
    let mut c = dotted(w, h);
    root.render(&mut c, Region::new(0, 0, w as i32, h as i32));
    let cells = canvas_cells(&c);
    let total: u16 = hs.iter().sum();
    if total <= h {
        let mut y = 0;
        for (i, ht) in hs.iter().enumerate() {
            for yy in y..y + ht {
                for x in 0..w {
                    ensure_eq!(cells[(yy * w + x) as usize].bg, Some((10 + i as u8 * 20, 0, 9)), "cell {x},{yy} belongs to child {i} ({css})");
                }
            }
            y += ht;
        }
        outside_untouched(&cells, w, &Region::new(0, 0, w as i32, total as i32), "placeholders")?;
    }
    g.key(&(w, hs));
    g.nontrivial_if(total <= h && n > 1);
    Ok(())
}

pub const P29: Property = Property {
    id: "C29",
    rule: "something is painted; for the placeholder its text, for the bar a drag that moves it, for the tooltip a box whose size is known",
    assumptions: &[
        "header titles without markup characters",
        "what a drag does beyond the bar's own cells is not stated",
        "tooltips whose text must be wrapped are checked for position and columns only through their bounds",
    ],
    parts: &[
        Part { name: "bounds", quick: 120_000, thorough: 1_500_000, f: bounds },
        Part { name: "placeholder", quick: 40_000, thorough: 500_000, f: placeholder },
        Part { name: "neighbours", quick: 20_000, thorough: 200_000, f: neighbours },
        Part { name: "marks", quick: 60_000, thorough: 600_000, f: marks },
        Part { name: "header", quick: 12_000, thorough: 100_000, f: header },
        Part { name: "variants", quick: 40_000, thorough: 200_000, f: variants },
        Part { name: "scrollbar", quick: 40_000, thorough: 800_000, f: bar },
        Part { name: "tooltip", quick: 80_000, thorough: 800_000, f: tooltip },
    ],
};
