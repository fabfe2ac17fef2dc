//! C11: drawing on the canvas against a cell model. C12: flushed bytes replayed in a terminal model.
use crate::common::*;
use crate::engine::{Fail, G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use crossterm::style::Color;
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Cell, Region, TextAttributes};
use textual::segment::{Segment, Style};
use textual::strip::Strip;

type Rgb = Option<(u8, u8, u8)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Glyph {
    Lead(String),
    Cont,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MCell {
    pub glyph: Glyph,
    pub fg: Rgb,
    pub bg: Rgb,
    pub attrs: TextAttributes,
}

pub fn rgb(c: Option<Color>) -> Rgb {
    match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        Some(Color::Reset) | None => None,
        Some(o) => Some((255, format!("{o:?}").len() as u8, 254)),
    }
}

fn close(a: Rgb, b: Rgb) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0.abs_diff(b.0) <= 1 && a.1.abs_diff(b.1) <= 1 && a.2.abs_diff(b.2) <= 1,
        _ => false,
    }
}

pub fn from_cell(c: &Cell) -> MCell {
    MCell { glyph: if c.continuation { Glyph::Cont } else { Glyph::Lead(c.symbol.clone()) }, fg: rgb(c.fg), bg: rgb(c.bg), attrs: c.attrs }
}

const BLANK_ATTRS: TextAttributes = TextAttributes { bold: false, dim: false, italic: false, underline: false, strike: false, reverse: false };

fn blank() -> MCell {
    MCell { glyph: Glyph::Lead(" ".into()), fg: None, bg: None, attrs: BLANK_ATTRS }
}

struct Model {
    w: i64,
    h: i64,
    cells: Vec<MCell>,
    clips: Vec<(i64, i64, i64, i64)>, // x0 y0 x1 y1
}

fn mix(bg: Option<&RgbaColor>, under: Rgb) -> Rgb {
    match bg {
        None => under,
        Some(c) if c.a <= 0.0 => under,
        Some(c) if c.a >= 1.0 => Some((c.r, c.g, c.b)),
        Some(c) => {
            let u = under.unwrap_or((0, 0, 0));
            let f = |o: u8, b: u8| (b as f64 + (o as f64 - b as f64) * c.a as f64) as u8;
            Some((f(c.r, u.0), f(c.g, u.1), f(c.b, u.2)))
        }
    }
}

fn ink(fg: Option<&RgbaColor>) -> Rgb {
    fg.map(|c| {
        let f = |v: u8| (v as f64 * (c.a as f64).min(1.0)).round() as u8;
        (f(c.r), f(c.g), f(c.b))
    })
}

impl Model {
    fn new(w: u16, h: u16) -> Self {
        Model { w: w as i64, h: h as i64, cells: vec![blank(); w as usize * h as usize], clips: vec![] }
    }
    fn clip(&self) -> (i64, i64, i64, i64) {
        self.clips.last().copied().unwrap_or((0, 0, self.w, self.h))
    }
    fn push(&mut self, r: &Region) {
        let (a, b, c, d) = self.clip();
        let (x0, y0) = (r.x as i64, r.y as i64);
        let (x1, y1) = (x0 + r.width as i64, y0 + r.height as i64);
        self.clips.push((a.max(x0), b.max(y0), c.min(x1), d.min(y1)));
    }
    fn text(&mut self, x: i64, y: i64, s: &str, fg: Option<&RgbaColor>, bg: Option<&RgbaColor>, attrs: TextAttributes) {
        let (cx0, cy0, cx1, cy1) = self.clip();
        let mut p = x;
        for gr in graphemes(s) {
            let w = gw(gr) as i64;
            if y >= cy0 && y < cy1 && p >= cx0 && p + w <= cx1 {
                self.glyph(p, y, gr, w, fg, bg, attrs);
            }
            p += w;
        }
    }
    fn glyph(&mut self, x: i64, y: i64, gr: &str, w: i64, fg: Option<&RgbaColor>, bg: Option<&RgbaColor>, attrs: TextAttributes) {
        let gr = if gr.chars().any(|c| c.is_control()) { " " } else { gr };
        let i = (y * self.w + x) as usize;
        let tint_only = gr == " " && w == 1 && fg.is_none() && attrs == BLANK_ATTRS && bg.is_some_and(|b| b.a > 0.0 && b.a < 1.0);
        if tint_only {
            self.cells[i].bg = mix(bg, self.cells[i].bg);
            return;
        }
        // halves left over by overwriting one half of a wide glyph
        if self.cells[i].glyph == Glyph::Cont {
            self.cells[i - 1].glyph = Glyph::Lead(" ".into());
        }
        if x + w < self.w && self.cells[i + w as usize].glyph == Glyph::Cont {
            self.cells[i + w as usize].glyph = Glyph::Lead(" ".into());
        }
        for k in 0..w as usize {
            let b = mix(bg, self.cells[i + k].bg);
            self.cells[i + k] = MCell { glyph: if k == 0 { Glyph::Lead(gr.into()) } else { Glyph::Cont }, fg: ink(fg), bg: b, attrs };
        }
    }
    /// Compare, allowing one step of rounding per colour channel; then adopt the canvas's rounding.
    fn compare(&mut self, c: &Canvas, what: &str) -> R {
        for i in 0..self.cells.len() {
            let a = from_cell(c.cell_at(i));
            let m = &self.cells[i];
            if a.glyph != m.glyph || a.attrs != m.attrs || !close(a.fg, m.fg) || !close(a.bg, m.bg) {
                fail!("after {what}: cell ({}, {})\n   got: {a:?}\n  want: {m:?}", i as i64 % self.w, i as i64 / self.w);
            }
            if let Glyph::Lead(s) = &a.glyph {
                ensure_eq!(c.cell_at(i).width as usize, gw(s), "width of cell {i}");
            }
            self.cells[i] = a;
        }
        Ok(())
    }
}

fn color(g: &mut G) -> Option<RgbaColor> {
    match g.weighted(&[3, 5, 2, 1]) {
        0 => None,
        1 => Some(RgbaColor::rgb(g.u8(), g.u8(), g.u8())),
        2 => Some(RgbaColor::rgba(g.u8(), g.u8(), g.u8(), *g.of(&[0.1, 0.3, 0.5, 0.9]))),
        _ => Some(RgbaColor::rgba(g.u8(), g.u8(), g.u8(), 0.0)),
    }
}

fn attrs(g: &mut G) -> TextAttributes {
    if g.chance(1, 2) {
        return BLANK_ATTRS;
    }
    TextAttributes { bold: g.bool(), dim: g.bool(), italic: g.bool(), underline: g.bool(), strike: g.bool(), reverse: g.bool() }
}

fn text(g: &mut G, max: usize) -> String {
    let n = g.usize(0, max);
    let mut s = String::new();
    for _ in 0..n {
        match g.weighted(&[8, 3, 1, 1]) {
            0 => s.push_str(grapheme(g)),
            1 => s.push(' '),
            2 => s.push_str(g.pick(&["<", "&", ">", "\"", "'", "\u{a0}"])),
            _ => s.push_str(g.pick(&["\t", "\r", "\x1b", "\u{7}", "\u{9b}", "\n"])),
        }
    }
    s
}

fn coord(g: &mut G, n: u16) -> i32 {
    match g.weighted(&[16, 6, 1]) {
        0 => g.i32(0, n as i32 - 1),
        1 => g.i32(-4, n as i32 + 3),
        _ => *g.of(&[-1000, 1000, -70000, 70000]),
    }
}

/// One random drawing operation applied to both canvas and model.
fn draw(g: &mut G, c: &mut Canvas, m: &mut Model, w: u16, h: u16, ctl: bool, clear: bool) -> String {
    let strip_ctl = |s: String| if ctl { s } else { s.chars().filter(|c| !c.is_control()).collect() };
    match g.weighted(&[4, 3, 6, 16, 8, if clear { 1 } else { 0 }]) {
        0 => {
            let r = Region::new(g.i32(-3, w as i32), g.i32(-3, h as i32), g.i32(-1, w as i32 + 5), g.i32(-1, h as i32 + 5));
            c.push_clip(r);
            m.push(&r);
            format!("push_clip({},{} {}x{})", r.x, r.y, r.width, r.height)
        }
        1 => {
            c.pop_clip();
            m.clips.pop();
            "pop_clip".into()
        }
        2 => {
            let (x, y) = (coord(g, w), coord(g, h));
            let ch = match g.weighted(&[4, 2, 1]) {
                0 => *g.of(&['a', '#', ' ', 'é', '│']),
                1 => *g.of(&['世', '🎉', 'あ']),
                _ => if ctl { '\x1b' } else { 'q' },
            };
            let (fg, bg, at) = (color(g), color(g), attrs(g));
            m.text(x as i64, y as i64, &ch.to_string(), fg.as_ref(), bg.as_ref(), at);
            c.put_char(x, y, ch, fg, bg, at);
            format!("put_char({x},{y},{ch:?})")
        }
        3 => {
            let (x, y) = (coord(g, w), coord(g, h));
            let s = strip_ctl(text(g, 8));
            let (fg, bg, at) = (color(g), color(g), attrs(g));
            m.text(x as i64, y as i64, &s, fg.as_ref(), bg.as_ref(), at);
            let d = format!("put_str({x},{y},{s:?},{fg:?},{bg:?})");
            c.put_str(x, y, &s, fg, bg, at);
            d
        }
        4 => {
            let (x, y) = (coord(g, w), coord(g, h));
            let mut strips = vec![];
            for k in 0..g.usize(1, 3) {
                let mut segs = vec![];
                let mut p = x as i64;
                for _ in 0..g.usize(0, 3) {
                    let s = strip_ctl(text(g, 4));
                    let at = attrs(g);
                    let st = Style { fg: color(g), bg: color(g), bold: at.bold, dim: at.dim, italic: at.italic, underline: at.underline, strike: at.strike, reverse: at.reverse };
                    m.text(p, y as i64 + k as i64, &s, st.fg.as_ref(), st.bg.as_ref(), at);
                    p += width(&s) as i64;
                    segs.push(Segment::styled(s, st));
                }
                strips.push(Strip::from_segments(segs));
            }
            let d = format!("render_strips({:?},{x},{y})", strips.iter().map(|s| s.text()).collect::<Vec<_>>());
            c.render_strips(&strips, x, y);
            d
        }
        _ => {
            c.clear();
            m.cells.fill(blank());
            m.clips.clear();
            "clear".into()
        }
    }
}

fn drawing(g: &mut G) -> R {
    let (w, h) = (g.u16(1, 10), g.u16(1, 5));
    let mut c = Canvas::new(w, h);
    let mut m = Model::new(w, h);
    g.note(|| format!("canvas {w}x{h}"));
    let n = g.usize(1, 10);
    let mut log = vec![];
    for _ in 0..n {
        let d = draw(g, &mut c, &mut m, w, h, true, true);
        g.note(|| d.clone());
        m.compare(&c, &d)?;
        log.push(d);
    }
    // read-outs agree with the cells
    for y in 0..h as i32 {
        let row = c.row_str(y);
        let mut want = String::new();
        for x in 0..w as usize {
            match &m.cells[y as usize * w as usize + x].glyph {
                Glyph::Lead(s) => want.push_str(s),
                Glyph::Cont => want.push(' '),
            }
        }
        ensure_eq!(row, want, "row_str({y})");
    }
    let clipped = log.iter().any(|l| l.starts_with("push_clip"));
    g.label_if(clipped, "clipped");
    g.label_if(m.cells.iter().any(|c| c.glyph == Glyph::Cont), "wide glyph left");
    g.nontrivial_if(n >= 3 && m.cells.iter().any(|c| *c != blank()));
    g.key(&log);
    Ok(())
}

fn huge(g: &mut G) -> R {
    let w = *g.of(&[256u16, 300, 1000, 65535]);
    let h = *g.of(&[1u16, 256, 300]);
    if w as usize * h as usize > 400_000 {
        return Ok(());
    }
    let mut c = Canvas::new(w, h);
    ensure_eq!(c.size(), (w, h), "size()");
    let (x, y) = (g.i32(0, w as i32 - 1), g.i32(0, h as i32 - 1));
    c.put_char(x, y, 'Z', None, None, BLANK_ATTRS);
    let mut hits = 0;
    for i in 0..w as usize * h as usize {
        if c.cell_at(i).symbol == "Z" {
            hits += 1;
            ensure_eq!(i, y as usize * w as usize + x as usize, "cell index");
        }
    }
    ensure_eq!(hits, 1, "cells drawn on a {w}x{h} canvas");
    g.key(&(w, h, x, y));
    g.nontrivial_if(w as usize * h as usize > 65535);
    Ok(())
}

fn regions(g: &mut G) -> R {
    let edge = |g: &mut G| match g.weighted(&[6, 1]) {
        0 => g.i32(-8, 8),
        _ => *g.of(&[i32::MAX, i32::MIN, i32::MAX - 3, 1 << 30]),
    };
    let size = |g: &mut G| if g.chance(1, 8) { edge(g) } else { g.i32(0, 14) };
    let a = Region::new(edge(g), edge(g), size(g), size(g));
    let b = Region::new(edge(g), edge(g), size(g), size(g));
    let i = a.intersection(&b);
    g.note(|| format!("{a:?} {b:?} -> {i:?}"));
    let inside = |r: &Region, x: i64, y: i64| {
        let e = |p: i32, l: i32| (p as i64 + l as i64).min(i32::MAX as i64);
        x >= r.x as i64 && x < e(r.x, r.width) && y >= r.y as i64 && y < e(r.y, r.height)
    };
    for _ in 0..24 {
        let (x, y) = (g.i32(-9, 17), g.i32(-9, 17));
        let want = inside(&a, x as i64, y as i64) && inside(&b, x as i64, y as i64);
        ensure_eq!(i.contains_point(x, y), want, "point ({x},{y})");
    }
    g.nontrivial_if(!i.is_empty());
    Ok(())
}

pub static P11: Property = Property {
    id: "C11",
    rule: "drawing: at least three operations and something drawn; huge: more than 65535 cells; regions: the intersection is not empty",
    assumptions: &["a wide character that does not fit entirely inside the clip is not drawn", "colour mixes may differ from the exact value by one step per channel"],
    parts: &[
        Part { name: "drawing histories", quick: 1_600_000, thorough: 20_000_000, f: drawing },
        Part { name: "huge canvases", quick: 200, thorough: 2_000, f: huge },
        Part { name: "region intersection", quick: 80_000, thorough: 800_000, f: regions },
    ],
};

// ---------------------------------------------------------------- C12

/// Parsed select-graphic-rendition state.
#[derive(Clone, Default)]
pub struct Sgr {
    pub fg: Rgb,
    pub bg: Rgb,
    pub at: TextAttributes,
}

impl Sgr {
    pub fn apply(&mut self, args: &str) -> R {
        let n: Vec<usize> = args.split([';', ':']).map(|a| a.parse().unwrap_or(0)).collect();
        let mut i = 0;
        while i < n.len() {
            match n[i] {
                0 => *self = Sgr::default(),
                1 => self.at.bold = true,
                2 => self.at.dim = true,
                3 => self.at.italic = true,
                4 => self.at.underline = true,
                7 => self.at.reverse = true,
                9 => self.at.strike = true,
                39 => self.fg = None,
                49 => self.bg = None,
                k @ (38 | 48) => {
                    ensure!(n.get(i + 1) == Some(&2) && i + 4 < n.len(), "unknown colour sequence {args}");
                    let c = Some((n[i + 2] as u8, n[i + 3] as u8, n[i + 4] as u8));
                    if k == 38 {
                        self.fg = c;
                    } else {
                        self.bg = c;
                    }
                    i += 4;
                }
                o => fail!("unexpected SGR {o}"),
            }
            i += 1;
        }
        Ok(())
    }
}

/// A terminal: cursor addressing, SGR, wide characters, deferred wrap.
pub struct Term {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<MCell>,
    x: usize,
    y: usize,
    pending: bool,
    sgr: Sgr,
}

impl Term {
    pub fn new(w: usize, h: usize, fill: &str) -> Self {
        Term { w, h, cells: vec![MCell { glyph: Glyph::Lead(fill.into()), fg: Some((1, 2, 3)), bg: Some((9, 9, 9)), attrs: BLANK_ATTRS }; w * h], x: 0, y: 0, pending: false, sgr: Sgr::default() }
    }
    fn sever(&mut self, i: usize, w: usize) {
        if self.cells[i].glyph == Glyph::Cont && i % self.w > 0 {
            self.cells[i - 1].glyph = Glyph::Lead(" ".into());
        }
        let e = i + w;
        if e % self.w != 0 && e < self.cells.len() && self.cells[e].glyph == Glyph::Cont {
            self.cells[e].glyph = Glyph::Lead(" ".into());
        }
    }
    fn print(&mut self, text: &str) -> R {
        for gr in graphemes(text) {
            ensure!(!gr.chars().any(|c| c.is_control()), "control character {gr:?} sent to the terminal");
            let w = gw(gr);
            if self.pending || self.x + w > self.w {
                self.x = 0;
                self.pending = false;
                if self.y + 1 < self.h {
                    self.y += 1;
                } else {
                    fail!("output scrolls the screen: {gr:?} printed past the bottom right corner");
                }
            }
            let i = self.y * self.w + self.x;
            if w > self.w {
                fail!("glyph wider than the screen");
            }
            self.sever(i, w);
            for k in 0..w {
                self.cells[i + k] = MCell { glyph: if k == 0 { Glyph::Lead(gr.into()) } else { Glyph::Cont }, fg: self.sgr.fg, bg: self.sgr.bg, attrs: self.sgr.at };
            }
            self.x += w;
            if self.x >= self.w {
                self.x = self.w - 1;
                self.pending = true;
            }
        }
        Ok(())
    }
    pub fn feed(&mut self, bytes: &[u8]) -> R {
        let Ok(s) = std::str::from_utf8(bytes) else { fail!("output is not UTF-8") };
        let mut rest = s;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix("\x1b[") {
                let Some(e) = r.find(|c: char| c.is_ascii_alphabetic()) else { fail!("unfinished escape sequence {r:?}") };
                let (args, fin) = (&r[..e], r.as_bytes()[e]);
                self.csi(args, fin)?;
                rest = &r[e + 1..];
            } else {
                let e = rest.find('\x1b').unwrap_or(rest.len());
                ensure!(e > 0, "stray escape before {:?}", rest.chars().take(8).collect::<String>());
                self.print(&rest[..e])?;
                rest = &rest[e..];
            }
        }
        Ok(())
    }
    fn csi(&mut self, args: &str, fin: u8) -> R {
        if fin == b'h' || fin == b'l' {
            return Ok(());
        }
        let n: Vec<usize> = args.split([';', ':']).map(|a| a.parse().unwrap_or(0)).collect();
        match fin {
            b'H' => {
                self.y = n.first().copied().unwrap_or(1).max(1) - 1;
                self.x = n.get(1).copied().unwrap_or(1).max(1) - 1;
                self.pending = false;
                ensure!(self.x < self.w && self.y < self.h, "cursor moved off screen to {},{}", self.x, self.y);
            }
            b'm' => self.sgr.apply(args)?,
            o => fail!("unexpected control sequence {:?}", o as char),
        }
        Ok(())
    }
    /// What the screen shows must be what the cells say (the trailing half of a wide character belongs to it).
    pub fn shows(&self, want: &[MCell], what: &str) -> R {
        for i in 0..want.len() {
            let (a, m) = (&self.cells[i], &want[i]);
            let bad = match (&a.glyph, &m.glyph) {
                (Glyph::Cont, Glyph::Cont) => false,
                (x, y) => x != y || a.fg != m.fg || a.bg != m.bg || a.attrs != m.attrs,
            };
            if bad {
                return Err(Fail(format!("after {what}: screen cell ({}, {})\n   got: {a:?}\n  want: {m:?}", i % self.w, i / self.w)));
            }
        }
        Ok(())
    }
}

pub fn draw_any(g: &mut G, c: &mut Canvas, w: u16, h: u16) -> String {
    let mut m = Model::new(w, h);
    draw(g, c, &mut m, w, h, true, false)
}

pub fn canvas_cells(c: &Canvas) -> Vec<MCell> {
    let (w, h) = c.size();
    (0..w as usize * h as usize).map(|i| from_cell(c.cell_at(i))).collect()
}

fn flushes(g: &mut G) -> R {
    let (w, h) = (g.u16(1, 9), g.u16(1, 4));
    let mut c = Canvas::new(w, h);
    let mut t = Term::new(w as usize, h as usize, "?");
    textual::vp_hooks::capture_output();
    textual::vp_hooks::take_output();
    let frames = g.usize(1, 5);
    g.note(|| format!("canvas {w}x{h}, {frames} frames"));
    let mut last: Vec<MCell> = vec![];
    let mut changed = 0;
    let mut log = vec![];
    // frames resemble each other: a common script with per-frame edits
    let mut script: Vec<u64> = vec![];
    for f in 0..frames {
        c.clear();
        let mut m = Model::new(w, h);
        if f == 0 || g.chance(1, 2) {
            script = g.vec(0, 6, |g| g.below(1 << 40));
        } else if !script.is_empty() && g.chance(2, 3) {
            let k = g.usize(0, script.len() - 1);
            script[k] = g.below(1 << 40);
        }
        for seed in &script {
            let mut sub = G::derived(*seed);
            let d = draw(&mut sub, &mut c, &mut m, w, h, true, false);
            g.note(|| format!("  frame {f}: {d}"));
            log.push(d);
        }
        let want = canvas_cells(&c);
        if want != last {
            changed += 1;
        }
        if f > 0 && g.chance(1, 6) {
            c.invalidate();
            if g.bool() {
                t = Term::new(w as usize, h as usize, "!");
            }
            g.label("invalidated");
        }
        c.flush().map_err(|e| Fail(format!("flush failed: {e}")))?;
        let out = textual::vp_hooks::take_output();
        t.feed(&out)?;
        t.shows(&want, &format!("frame {f}"))?;
        if f > 0 && want == last {
            g.label("unchanged frame");
        }
        last = want;
    }
    g.label_if(last.iter().any(|c| c.glyph == Glyph::Cont), "wide glyph on screen");
    g.nontrivial_if(changed >= 2);
    g.key(&log);
    Ok(())
}

pub static P12: Property = Property {
    id: "C12",
    rule: "at least two consecutive frames differ",
    assumptions: &["the application clears the canvas before drawing each frame, as the event loop does", "the terminal wraps lazily at the right margin and blanks the other half of a wide character when one half is overwritten", "terminal and project agree on character widths"],
    parts: &[Part { name: "frame sequences", quick: 500_000, thorough: 10_000_000, f: flushes }],
};
