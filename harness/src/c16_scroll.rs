//! C16: scrolling histories. The content is one to three maps, apart by their margins, whose every cell encodes its own
//! position in the whole content in its colour, so that the
//! picture alone tells the scroll position; the scrollbar thumb is measured from the picture in eighths of a cell.
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::engine::{Fail, G, Part, Property, R};
use crate::trees::mouse_event;
use crate::{ensure, ensure_eq, fail};
use crossterm::event::{KeyCode, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::border::BorderKind;
use tcss::types::{ComputedStyle, Layout as Kind, Overflow, RgbaColor, Scalar, ScrollbarGutter, ScrollbarVisibility, Unit};
use textual::scroll::ScrollState;
use textual::widget::screen::Screen;
use textual::{Canvas, Container, HorizontalScroll, Region, ScrollableContainer, Size, VerticalScroll, Widget};

/// Colours of a bar left alone, under the pointer, and held.
const THUMB: [(u8, u8, u8); 3] = [(250, 1, 2), (250, 11, 2), (250, 21, 2)];
const TRACK: [(u8, u8, u8); 3] = [(1, 250, 2), (1, 240, 2), (1, 230, 2)];
const CORNER: (u8, u8, u8) = (3, 4, 250);
const PLAIN: usize = 0;
const HOVER: usize = 1;
const HELD: usize = 2;

/// One piece of the content: its size and its margins (top, right, bottom, left).
#[derive(Clone, Copy, Debug)]
struct Block {
    size: (u16, u16),
    margin: [u16; 4],
}

/// The content: blocks in a row or a column, next to each other but for the larger of the margins between them.
struct Content {
    row: bool,
    blocks: RefCell<Vec<Block>>,
}

impl Content {
    fn origin(&self, n: usize) -> (u16, u16) {
        let blocks = self.blocks.borrow();
        let [top, _, _, left] = blocks[n].margin;
        let (mut at, mut gap) = (0, 0);
        for b in &blocks[..n] {
            let (before, len, after) = if self.row { (b.margin[3], b.size.0, b.margin[1]) } else { (b.margin[0], b.size.1, b.margin[2]) };
            at += before.max(gap) + len;
            gap = after;
        }
        if self.row { (at + left.max(gap), top) } else { (left, at + top.max(gap)) }
    }
    fn total(&self) -> (u16, u16) {
        let mut t = (0, 0);
        for (i, b) in self.blocks.borrow().iter().enumerate() {
            let o = self.origin(i);
            t = (t.0.max(o.0 + b.size.0 + b.margin[1]), t.1.max(o.1 + b.size.1 + b.margin[2]));
        }
        t
    }
    /// Whether a block covers this position of the content.
    fn covers(&self, x: i32, y: i32) -> bool {
        self.blocks.borrow().iter().enumerate().any(|(i, b)| {
            let o = self.origin(i);
            Region::new(o.0 as i32, o.1 as i32, b.size.0 as i32, b.size.1 as i32).contains_point(x, y)
        })
    }
}

struct Map {
    content: Rc<Content>,
    n: usize,
}

fn code(x: i32, y: i32) -> RgbaColor {
    RgbaColor::rgb(x as u8, y as u8, 77)
}

impl Widget<usize> for Map {
    fn render(&self, canvas: &mut Canvas, r: Region) {
        let (ox, oy) = self.content.origin(self.n);
        for y in 0..r.height {
            for x in 0..r.width {
                canvas.put_char(r.x + x, r.y + y, '#', Some(code(ox as i32 + x, oy as i32 + y)), None, Default::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        let b = self.content.blocks.borrow()[self.n];
        Size { width: b.size.0, height: b.size.1 }
    }
    fn get_style(&self) -> ComputedStyle {
        let mut s = ComputedStyle::default();
        let b = self.content.blocks.borrow()[self.n];
        s.width = Some(Scalar { value: b.size.0 as f64, unit: Unit::Cells });
        s.height = Some(Scalar { value: b.size.1 as f64, unit: Unit::Cells });
        for (e, v) in [&mut s.margin.top, &mut s.margin.right, &mut s.margin.bottom, &mut s.margin.left].into_iter().zip(b.margin) {
            e.value = v as f64;
        }
        s
    }
    fn set_style(&mut self, _: ComputedStyle) {}
    fn on_mouse(&mut self, _: MouseEvent, _: Region) -> Option<usize> {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Host {
    Scrollable,
    VScroll,
    HScroll,
    Screen,
    Container,
}

struct Stage {
    host: Host,
    root: Box<dyn Widget<usize>>,
    content: Rc<Content>,
    style: ComputedStyle,
    canvas: (u16, u16),
    /// The region given to the root, and the box of the scrolling widget itself.
    given: Region,
    region: Region,
    nested: bool,
    pointer: Pointer,
    /// The bars and viewport as last painted.
    bars: (Option<Region>, Option<Region>),
}

#[derive(Clone, Debug, PartialEq)]
struct View {
    ox: i32,
    oy: i32,
    /// What the model expects to be visible: content viewport and scrollbar tracks.
    port: Region,
    max: (i32, i32),
    vbar: Option<Region>,
    hbar: Option<Region>,
    /// Thumb start and end in eighths.
    vthumb: Option<(i32, i32)>,
    hthumb: Option<(i32, i32)>,
}

/// What the pointer does to the bars: which one it is on and which one it holds (true: the vertical one).
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Pointer {
    on: Option<bool>,
    holds: Option<bool>,
}
impl Pointer {
    fn state(&self, vertical: bool) -> usize {
        if self.holds == Some(vertical) {
            HELD
        } else if self.on == Some(vertical) {
            HOVER
        } else {
            PLAIN
        }
    }
}

fn inner(r: Region, s: &ComputedStyle) -> Region {
    let e = |b: BorderKind| (b != BorderKind::None) as i32;
    let (t, rr, b, l) = (
        e(s.border.top.kind) + s.padding.top.value as i32,
        e(s.border.right.kind) + s.padding.right.value as i32,
        e(s.border.bottom.kind) + s.padding.bottom.value as i32,
        e(s.border.left.kind) + s.padding.left.value as i32,
    );
    Region::new(r.x + l, r.y + t, (r.width - l - rr).max(0), (r.height - t - b).max(0))
}

impl Stage {
    /// Viewport and bars the way the documentation describes `overflow` and `scrollbar-gutter`.
    fn geometry(&self) -> (Region, Region, bool, bool) {
        let s = &self.style;
        let inn = inner(self.region, s);
        let (w, h) = (self.content.total().0 as i32, self.content.total().1 as i32);
        let (bv, bh) = (s.scrollbar.size.vertical as i32, s.scrollbar.size.horizontal as i32);
        let (mut v, mut hz) = (s.overflow_y == Overflow::Scroll, s.overflow_x == Overflow::Scroll);
        loop {
            let stable = s.scrollbar.gutter == ScrollbarGutter::Stable && s.overflow_y == Overflow::Auto;
            let pw = (inn.width - if v || stable { bv } else { 0 }).max(0);
            let ph = (inn.height - if hz { bh } else { 0 }).max(0);
            let nv = v || (s.overflow_y == Overflow::Auto && h > ph);
            let nh = hz || (s.overflow_x == Overflow::Auto && w > pw);
            if (nv, nh) == (v, hz) {
                return (Region::new(inn.x, inn.y, pw, ph), inn, v, hz);
            }
            (v, hz) = (nv, nh);
        }
    }

    /// The picture must be the content as scrolled to some position. Nothing, if all that shows is margins.
    fn paint(&mut self) -> Result<Option<View>, Fail> {
        let mut c = Canvas::new(self.canvas.0, self.canvas.1);
        self.root.render(&mut c, self.given);
        let cells = canvas_cells(&c);
        let at = |x: i32, y: i32| -> Option<&MCell> {
            (x >= 0 && y >= 0 && x < self.canvas.0 as i32 && y < self.canvas.1 as i32).then(|| &cells[(y * self.canvas.0 as i32 + x) as usize])
        };
        let (port, inn, v, h) = self.geometry();
        let (w, hh) = (self.content.total().0 as i32, self.content.total().1 as i32);
        let max = ((w - port.width).max(0), (hh - port.height).max(0));
        let code_of = |m: &MCell| match m.fg {
            Some((x, y, 77)) if m.glyph == Glyph::Lead("#".into()) => Some((x as i32, y as i32)),
            _ => None,
        };
        let (mut ox, mut oy) = (0, 0);
        if port.width > 0 && port.height > 0 {
            let cells = (port.y..port.y + port.height).flat_map(|y| (port.x..port.x + port.width).map(move |x| (x, y)));
            match cells.filter_map(|(x, y)| at(x, y).and_then(code_of).map(|p| (p.0 - (x - port.x), p.1 - (y - port.y)))).next() {
                Some(p) => (ox, oy) = p,
                None => {
                    let empty = |ox: i32, oy: i32| !(0..port.height).any(|y| (0..port.width).any(|x| self.content.covers(ox + x, oy + y)));
                    ensure!((0..=max.1).any(|oy| (0..=max.0).any(|ox| empty(ox, oy))), "no content in the viewport {port:?}");
                    return Ok(None);
                }
            }
            ensure!(ox >= 0 && oy >= 0 && ox <= max.0 && oy <= max.1, "scrolled to {ox},{oy}, past the end {max:?}");
        }
        for y in 0..self.canvas.1 as i32 {
            for x in 0..self.canvas.0 as i32 {
                let want = if port.contains_point(x, y) {
                    let (cx, cy) = (x - port.x + ox, y - port.y + oy);
                    self.content.covers(cx, cy).then_some((cx, cy))
                } else {
                    None
                };
                let got = code_of(at(x, y).unwrap());
                ensure_eq!(got, want, "content at {x},{y} with viewport {port:?} scrolled to {ox},{oy}");
            }
        }
        let sb = &self.style.scrollbar;
        let visible = sb.visibility == ScrollbarVisibility::Visible;
        let bv = (sb.size.vertical as i32).min(inn.width);
        let bh = (sb.size.horizontal as i32).min(inn.height);
        let vbar = (visible && v && bv > 0).then(|| {
            Region::new(inn.x + inn.width - bv, inn.y, bv, (inn.height - if h { sb.size.horizontal as i32 } else { 0 }).max(0))
        });
        let hbar = (visible && h && bh > 0).then(|| {
            Region::new(inn.x, inn.y + inn.height - bh, (inn.width - if v { sb.size.vertical as i32 } else { 0 }).max(0), bh)
        });
        let bar = |r: &Region, vertical: bool| -> Result<(i32, i32), Fail> {
            let mut bits = vec![];
            let state = self.pointer.state(vertical);
            let (thumb_colour, track_colour) = (THUMB[state], TRACK[state]);
            let n = if vertical { r.height } else { r.width };
            let thick = if vertical { r.width } else { r.height };
            for i in 0..n {
                for k in 0..thick {
                    let (x, y) = if vertical { (r.x + k, r.y + i) } else { (r.x + i, r.y + k) };
                    let m = at(x, y).unwrap();
                    let Glyph::Lead(ch) = &m.glyph else { fail!("half a character in a scrollbar") };
                    // How much of the cell, from its start, is in the background colour.
                    let lead = match (vertical, ch.as_str()) {
                        (_, " ") => 8,
                        (true, c) => "▇▆▅▄▃▂▁".chars().position(|q| c.starts_with(q)).map_or(-1, |p| p as i32 + 1),
                        (false, c) => "▏▎▍▌▋▊▉".chars().position(|q| c.starts_with(q)).map_or(-1, |p| p as i32 + 1),
                    };
                    ensure!(lead >= 0, "{ch:?} in a scrollbar at {x},{y}");
                    let first = if vertical || lead == 8 { m.bg } else { m.fg };
                    let second = if vertical || lead == 8 { m.fg } else { m.bg };
                    for e in 0..8 {
                        let c = if e < lead { first } else { second };
                        ensure!(
                            c == Some(thumb_colour) || c == Some(track_colour),
                            "colour {c:?} in a {} scrollbar at {x},{y} with {:?} ({m:?})",
                            if vertical { "vertical" } else { "horizontal" },
                            self.pointer
                        );
                        let on = c == Some(thumb_colour);
                        if k == 0 {
                            bits.push(on);
                        } else {
                            ensure_eq!(bits[(i * 8 + e) as usize], on, "scrollbar differs across its thickness at {x},{y}");
                        }
                    }
                }
            }
            let start = bits.iter().position(|b| *b).map_or(0, |p| p as i32);
            let end = bits.iter().rposition(|b| *b).map_or(0, |p| p as i32 + 1);
            ensure!(bits[start as usize..end as usize].iter().all(|b| *b), "the thumb is in pieces");
            Ok((start, end))
        };
        let mut vthumb = None;
        let mut hthumb = None;
        for (r, vertical, total, o, m) in [(&vbar, true, hh, oy, max.1), (&hbar, false, w, ox, max.0)] {
            let Some(r) = r else { continue };
            let track = if vertical { r.height } else { r.width };
            let window = if vertical { port.height } else { port.width };
            if track <= 0 || r.width <= 0 || r.height <= 0 {
                continue;
            }
            let (a, b) = bar(r, vertical)?;
            if window > 0 && m > 0 && port.width > 0 && port.height > 0 {
                let name = if vertical { "vertical" } else { "horizontal" };
                let len = (window as f64 * track as f64 / total as f64).max(1.0).min(track as f64);
                let start = (track as f64 - len) * o as f64 / m as f64;
                ensure!(
                    (a as f64 - start * 8.0).abs() <= 1.01 && ((b - a) as f64 - len * 8.0).abs() <= 1.01,
                    "{name} thumb drawn at {a}..{b} eighths of a track of {track}, but {window} of {total} from {o} are visible (start {:.2}, length {:.2})",
                    start * 8.0,
                    len * 8.0
                );
                if vertical { vthumb = Some((a, b)) } else { hthumb = Some((a, b)) }
            }
        }
        self.bars = (vbar, hbar);
        if self.host != Host::Container && let (Some(v), Some(h)) = (vbar, hbar) {
            for y in h.y..inn.y + inn.height {
                for x in v.x..inn.x + inn.width {
                    let m = at(x, y).unwrap();
                    ensure!(m.bg == Some(CORNER) && m.glyph == Glyph::Lead(" ".into()), "the corner between the bars shows {m:?} at {x},{y}");
                }
            }
        }
        Ok(Some(View { ox, oy, port, max, vbar, hbar, vthumb, hthumb }))
    }

    fn send(&mut self, e: MouseEvent, sender: bool) {
        if e.kind == MouseEventKind::Moved {
            textual::clear_all_hover(self.root.as_mut());
        }
        if sender {
            self.root.on_mouse_with_sender(e, self.given);
        } else {
            self.root.on_mouse(e, self.given);
        }
        // A plain container's bars only show.
        if self.host == Host::Container {
            return;
        }
        let (x, y) = (e.column as i32, e.row as i32);
        match e.kind {
            MouseEventKind::Moved => {
                let on = |r: &Option<Region>| r.is_some_and(|r| r.contains_point(x, y));
                self.pointer.on = if on(&self.bars.0) {
                    Some(true)
                } else if on(&self.bars.1) {
                    Some(false)
                } else {
                    None
                };
                // Nothing is heard of the pointer outside the box.
                if !self.nested || self.region.contains_point(x, y) {
                    self.pointer.holds = None;
                }
            }
            MouseEventKind::Up(_) if !self.nested || self.region.contains_point(x, y) => self.pointer.holds = None,
            _ => {}
        }
    }
}

/// Keeps every position of the content below 256, so that it can be told by its colour.
fn resize(g: &mut G, content: &Content) {
    let n = content.blocks.borrow().len();
    for i in 0..n {
        let size = if n == 1 && g.chance(1, 4) {
            (g.u16(1, 240), g.u16(1, 240))
        } else if g.chance(1, 3) {
            (g.u16(1, 6), g.u16(1, 4))
        } else {
            (g.u16(1, 70), g.u16(1, 60))
        };
        content.blocks.borrow_mut()[i].size = size;
    }
}

fn overflow(g: &mut G) -> Overflow {
    *g.of(&[Overflow::Auto, Overflow::Auto, Overflow::Scroll, Overflow::Hidden])
}

macro_rules! seen {
    ($st:ident) => {
        match $st.paint()? {
            Some(view) => view,
            None => return Ok(()),
        }
    };
}

fn history(g: &mut G) -> R {
    let host = *g.of(&[Host::Scrollable, Host::VScroll, Host::HScroll, Host::Screen, Host::Screen, Host::Container]);
    let mut style = ComputedStyle::default();
    style.overflow_x = overflow(g);
    style.overflow_y = overflow(g);
    style.layout = if host == Host::HScroll { Kind::Horizontal } else { Kind::Vertical };
    let sb = &mut style.scrollbar;
    sb.size.vertical = g.u16(0, 2);
    sb.size.horizontal = g.u16(0, 2);
    if g.chance(1, 5) && host != Host::Container {
        sb.gutter = ScrollbarGutter::Stable;
    }
    if g.chance(1, 10) {
        sb.visibility = ScrollbarVisibility::Hidden;
    }
    let rgb = |(r, g, b): (u8, u8, u8)| Some(RgbaColor::rgb(r, g, b));
    for (i, c) in [&mut sb.color, &mut sb.color_hover, &mut sb.color_active].into_iter().enumerate() {
        *c = rgb(THUMB[i]);
    }
    for (i, c) in [&mut sb.background, &mut sb.background_hover, &mut sb.background_active].into_iter().enumerate() {
        *c = rgb(TRACK[i]);
    }
    sb.corner_color = rgb(CORNER);
    if g.chance(1, 3) {
        for e in [&mut style.border.top, &mut style.border.right, &mut style.border.bottom, &mut style.border.left] {
            e.kind = *g.of(&[BorderKind::Solid, BorderKind::None]);
        }
    }
    if g.chance(1, 4) {
        for e in [&mut style.padding.top, &mut style.padding.right, &mut style.padding.bottom, &mut style.padding.left] {
            e.value = g.int(0, 1) as f64;
        }
    }
    let nested = host != Host::Screen && g.chance(1, 3);
    let canvas = (g.u16(3, 30), g.u16(3, 20));
    let blocks = if g.bool() { 1 } else { g.usize(2, 3) };
    let margins = g.chance(1, 2);
    let content = Rc::new(Content {
        row: host == Host::HScroll,
        blocks: RefCell::new(
            (0..blocks)
                .map(|_| Block { size: (1, 1), margin: if margins { [0; 4].map(|_| if g.bool() { 0 } else { g.u16(1, 3) }) } else { [0; 4] } })
                .collect(),
        ),
    });
    resize(g, &content);
    let maps = || -> Vec<Box<dyn Widget<usize>>> { (0..blocks).map(|n| Box::new(Map { content: content.clone(), n }) as _).collect() };
    let full = Region::new(0, 0, canvas.0 as i32, canvas.1 as i32);
    let mut region = match host {
        Host::Screen => full,
        _ => {
            let (x, y) = (g.i32(0, 4.min(canvas.0 as i32 - 1)), g.i32(0, 3.min(canvas.1 as i32 - 1)));
            let (w, h) = (g.i32(1, canvas.0 as i32 - x), g.i32(1, canvas.1 as i32 - y));
            Region::new(x, y, w, h)
        }
    };
    if nested {
        region = Region::new(0, 0, region.width, region.height);
        style.width = Some(Scalar { value: region.width as f64, unit: Unit::Cells });
        style.height = Some(Scalar { value: region.height as f64, unit: Unit::Cells });
    }
    let mut root: Box<dyn Widget<usize>> = match host {
        Host::Scrollable => Box::new(ScrollableContainer::new(maps())),
        Host::VScroll => Box::new(VerticalScroll::new(maps())),
        Host::HScroll => Box::new(HorizontalScroll::new(maps())),
        Host::Screen => Box::new(Screen::new(maps())),
        Host::Container => Box::new(Container::new(maps())),
    };
    root.set_style(style.clone());
    if nested {
        let mut outer = Container::new(vec![root]);
        let mut s = ComputedStyle::default();
        s.overflow_x = Overflow::Hidden;
        s.overflow_y = Overflow::Hidden;
        outer.set_style(s);
        root = Box::new(outer);
    }
    let mut st = Stage { host, root, content: content.clone(), style, canvas, given: if nested { full } else { region }, region, nested, pointer: Pointer::default(), bars: (None, None) };
    st.root.on_resize(Size { width: canvas.0, height: canvas.1 });
    g.note(|| {
        let s = &st.style;
        format!(
            "{host:?}{} at {:?} on {canvas:?}, content {:?}, overflow {:?}/{:?}, bars {}x{} {:?} {:?}, inner {:?}",
            if nested { " in a container" } else { "" },
            (region.x, region.y, region.width, region.height),
            content.blocks.borrow(),
            s.overflow_x,
            s.overflow_y,
            s.scrollbar.size.vertical,
            s.scrollbar.size.horizontal,
            s.scrollbar.gutter,
            s.scrollbar.visibility,
            inner(region, s)
        )
    });
    let wheel_step = if matches!(host, Host::Screen | Host::Container) { 3 } else { 1 };
    let keys = !matches!(host, Host::Screen | Host::Container);
    let mut view = seen!(st);
    ensure_eq!((view.ox, view.oy), (0, 0), "before any scrolling");
    let steps = g.usize(1, 14);
    let mut moved = 0;
    for _ in 0..steps {
        let old = view.clone();
        // A widget that shows nothing is not followed any further.
        if view.port.width <= 0 || view.port.height <= 0 {
            return Ok(());
        }
        let (sx, sy) = (st.style.overflow_x != Overflow::Hidden, st.style.overflow_y != Overflow::Hidden);
        let sender = g.bool();
        let inside = |g: &mut G, st: &Stage| {
            let r = st.region;
            ((r.x + g.i32(0, r.width - 1)) as u16, (r.y + g.i32(0, r.height - 1)) as u16)
        };
        let lim = |v: i32, m: i32| v.clamp(0, m);
        match g.weighted(&[6, if keys { 5 } else { 0 }, 2, 2, 4, 4, 1, 3]) {
            0 => {
                // Wheel.
                let (x, y) = inside(g, &st);
                let kinds: &[MouseEventKind] = if host == Host::Container {
                    &[MouseEventKind::ScrollDown, MouseEventKind::ScrollUp]
                } else {
                    &[MouseEventKind::ScrollDown, MouseEventKind::ScrollDown, MouseEventKind::ScrollUp, MouseEventKind::ScrollLeft, MouseEventKind::ScrollRight]
                };
                let kind = *g.of(kinds);
                let mut e = mouse_event(kind, x, y);
                if host != Host::Container && g.chance(1, 4) {
                    e.modifiers = *g.of(&[KeyModifiers::SHIFT, KeyModifiers::CONTROL]);
                }
                g.note(|| format!("{kind:?} {:?} at {x},{y}", e.modifiers));
                st.send(e, sender);
                view = seen!(st);
                let turned = e.modifiers != KeyModifiers::NONE;
                let (dx, dy) = match kind {
                    MouseEventKind::ScrollDown if turned => (1, 0),
                    MouseEventKind::ScrollUp if turned => (-1, 0),
                    MouseEventKind::ScrollDown => (0, 1),
                    MouseEventKind::ScrollUp => (0, -1),
                    MouseEventKind::ScrollRight => (1, 0),
                    _ => (-1, 0),
                };
                let want = (
                    lim(old.ox + if sx { dx * wheel_step } else { 0 }, old.max.0),
                    lim(old.oy + if sy { dy * wheel_step } else { 0 }, old.max.1),
                );
                ensure_eq!((view.ox, view.oy), want, "scroll position after {kind:?}, from {:?}", (old.ox, old.oy));
            }
            1 => {
                let k = *g.of(&[
                    KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::End, KeyCode::Char('x'), KeyCode::Tab,
                ]);
                g.note(|| format!("key {k:?}"));
                st.root.on_event(k);
                view = seen!(st);
                let (mut x, mut y) = (old.ox, old.oy);
                match k {
                    KeyCode::Up => y -= 1,
                    KeyCode::Down => y += 1,
                    KeyCode::Left => x -= 1,
                    KeyCode::Right => x += 1,
                    KeyCode::Home => (x, y) = (0, 0),
                    KeyCode::End => (x, y) = old.max,
                    KeyCode::PageUp | KeyCode::PageDown if sy => {
                        page(old.oy, view.oy, if k == KeyCode::PageUp { -1 } else { 1 }, old.max.1, old.port.height)?;
                        y = view.oy;
                    }
                    _ => {}
                }
                let want = (if sx { lim(x, old.max.0) } else { old.ox }, if sy { lim(y, old.max.1) } else { old.oy });
                ensure_eq!((view.ox, view.oy), want, "scroll position after {k:?}, from {:?}", (old.ox, old.oy));
            }
            2 => {
                // The content grows or shrinks.
                resize(g, &content);
                g.note(|| format!("content becomes {:?}", content.blocks.borrow()));
                view = seen!(st);
                if view.port.width > 0 && view.port.height > 0 {
                    ensure_eq!((view.ox, view.oy), (lim(old.ox, view.max.0), lim(old.oy, view.max.1)), "scroll position after the content changed, from {:?}", (old.ox, old.oy));
                }
            }
            3 => {
                // The widget is resized, possibly together with its content.
                if host != Host::Screen && !nested {
                    let (w, h) = (g.i32(1, canvas.0 as i32 - st.region.x), g.i32(1, canvas.1 as i32 - st.region.y));
                    st.region = Region::new(st.region.x, st.region.y, w, h);
                    st.given = st.region;
                } else if host == Host::Screen {
                    st.canvas = (g.u16(3, 30), g.u16(3, 20));
                    st.region = Region::new(0, 0, st.canvas.0 as i32, st.canvas.1 as i32);
                    st.given = st.region;
                    st.root.on_resize(Size { width: st.canvas.0, height: st.canvas.1 });
                } else {
                    continue;
                }
                if g.bool() {
                    resize(g, &content);
                }
                g.note(|| format!("box becomes {:?}, content {:?}", (st.region.width, st.region.height), content.blocks.borrow()));
                view = seen!(st);
                if view.port.width > 0 && view.port.height > 0 {
                    ensure_eq!((view.ox, view.oy), (lim(old.ox, view.max.0), lim(old.oy, view.max.1)), "scroll position after a resize, from {:?}", (old.ox, old.oy));
                }
            }
            4 => {
                // Click on a bar, outside or on the thumb, and let go.
                let vertical = g.bool();
                let (bar, thumb) = if vertical { (old.vbar, old.vthumb) } else { (old.hbar, old.hthumb) };
                let (Some(bar), Some((a, b))) = (bar, thumb) else { continue };
                let n = if vertical { bar.height } else { bar.width };
                let i = g.i32(0, n - 1);
                let (x, y) = if vertical { (bar.x + g.i32(0, bar.width - 1), bar.y + i) } else { (bar.x + i, bar.y + g.i32(0, bar.height - 1)) };
                g.note(|| format!("click on the bar at {x},{y} (thumb {a}..{b} eighths)"));
                st.send(mouse_event(MouseEventKind::Down(MouseButton::Left), x as u16, y as u16), sender);
                st.send(mouse_event(MouseEventKind::Up(MouseButton::Left), x as u16, y as u16), sender);
                view = seen!(st);
                if host == Host::Container {
                    ensure_eq!((view.ox, view.oy), (old.ox, old.oy), "a plain container's bar only shows");
                    continue;
                }
                let (o, n, m, page_len) = if vertical { (old.oy, view.oy, old.max.1, old.port.height) } else { (old.ox, view.ox, old.max.0, old.port.width) };
                let other = if vertical { (old.ox, view.ox) } else { (old.oy, view.oy) };
                ensure_eq!(other.0, other.1, "the other direction after a click on a bar");
                if i * 8 + 8 <= a {
                    page(o, n, -1, m, page_len)?;
                } else if i * 8 >= b + 7 {
                    // (A thumb that ends inside a cell is taken hold of in the next one, too.)
                    page(o, n, 1, m, page_len)?;
                } else if i * 8 >= a && i * 8 + 8 <= b {
                    ensure_eq!(n, o, "scroll position after clicking on the thumb");
                }
            }
            5 => {
                // Drag the thumb.
                if host == Host::Container {
                    continue;
                }
                let vertical = g.bool();
                let (bar, thumb) = if vertical { (old.vbar, old.vthumb) } else { (old.hbar, old.hthumb) };
                let (Some(bar), Some((a, b))) = (bar, thumb) else { continue };
                let track = if vertical { bar.height } else { bar.width };
                let first = (a + 7) / 8;
                let last = b / 8 - 1;
                if last < first {
                    continue;
                }
                let i = g.i32(first, last);
                let across = if vertical { bar.x } else { bar.y };
                let pt = |p: i32, k: i32| if vertical { (across + k, bar.y + p) } else { (bar.x + p, across + k) };
                let (x, y) = pt(i, 0);
                st.send(mouse_event(MouseEventKind::Down(MouseButton::Left), x as u16, y as u16), sender);
                st.pointer.holds = Some(vertical);
                view = seen!(st);
                ensure_eq!((view.ox, view.oy), (old.ox, old.oy), "scroll position after taking hold of the thumb");
                g.note(|| format!("take hold of the {} thumb ({a}..{b} eighths of {track}) at {i}", if vertical { "vertical" } else { "horizontal" }));
                // Where in the thumb: cells from the cell its start lies in.
                let grab = i - a / 8;
                let (window, total) = if vertical { (old.port.height, content.total().1) } else { (old.port.width, content.total().0) };
                let thumb_cells = (window as f64 * track as f64 / total as f64).max(1.0);
                let mut path: Vec<(i32, i32)> = vec![];
                for _ in 0..g.usize(1, 4) {
                    let p = g.i32(-3, track + 3);
                    let (x, y) = pt(p, if nested || g.bool() { 0 } else { g.i32(-2, 2) });
                    if x < 0 || y < 0 || x >= st.canvas.0 as i32 || y >= st.canvas.1 as i32 {
                        continue;
                    }
                    // Without mouse capture a nested widget hears nothing outside its box.
                    if nested && !st.region.contains_point(x, y) {
                        continue;
                    }
                    g.note(|| format!("  drag to {p} of the track"));
                    st.send(mouse_event(MouseEventKind::Drag(MouseButton::Left), x as u16, y as u16), g.bool());
                    view = seen!(st);
                    let (n, m, t) = if vertical { (view.oy, view.max.1, view.vthumb) } else { (view.ox, view.max.0, view.hthumb) };
                    let other = if vertical { (old.ox, view.ox) } else { (old.oy, view.oy) };
                    ensure_eq!(other.0, other.1, "the other direction while dragging");
                    let target = p - grab;
                    if track as f64 <= thumb_cells {
                        // The thumb fills its track: there is nowhere to drag it.
                    } else if target <= 0 {
                        ensure_eq!(n, 0, "position with the thumb dragged to the start");
                    } else if target as f64 >= track as f64 - thumb_cells - 1e-9 {
                        ensure_eq!(n, m, "position with the thumb dragged to the end");
                    } else if let Some((s, _)) = t {
                        ensure!((s - target * 8).abs() <= 9, "thumb starts at {s} eighths, dragged to {} eighths", target * 8);
                    }
                    for (q, o) in &path {
                        ensure!((p <= *q || n >= *o) && (p >= *q || n <= *o), "dragging from {q} to {p} moved the content from {o} to {n}");
                    }
                    path.push((p, n));
                }
                // Let go; with a nested widget possibly where it cannot hear it.
                let here = if g.bool() { inside(g, &st) } else { (g.u16(0, st.canvas.0 - 1), g.u16(0, st.canvas.1 - 1)) };
                let before = seen!(st);
                st.send(mouse_event(MouseEventKind::Up(MouseButton::Left), here.0, here.1), g.bool());
                let there = inside(g, &st);
                g.note(|| format!("  let go at {here:?}, move to {there:?}"));
                st.send(mouse_event(MouseEventKind::Moved, there.0, there.1), g.bool());
                view = seen!(st);
                ensure_eq!((view.ox, view.oy), (before.ox, before.oy), "scroll position after letting go and moving on");
            }
            7 => {
                // The pointer moves, to a bar or anywhere.
                for _ in 0..g.usize(1, 3) {
                    let bars: Vec<Region> = [old.vbar, old.hbar].into_iter().flatten().filter(|r| r.width > 0 && r.height > 0).collect();
                    let (x, y) = if !bars.is_empty() && g.chance(2, 3) {
                        let r = *g.of(&bars);
                        ((r.x + g.i32(0, r.width - 1)) as u16, (r.y + g.i32(0, r.height - 1)) as u16)
                    } else {
                        (g.u16(0, st.canvas.0 - 1), g.u16(0, st.canvas.1 - 1))
                    };
                    g.note(|| format!("move to {x},{y}"));
                    st.send(mouse_event(MouseEventKind::Moved, x, y), sender);
                    view = seen!(st);
                    ensure_eq!((view.ox, view.oy), (old.ox, old.oy), "scroll position after the pointer moved");
                    g.label_if(st.pointer.on.is_some(), "pointer on a bar");
                }
            }
            _ => {
                let (x, y) = inside(g, &st);
                if old.vbar.is_some_and(|r| r.contains_point(x as i32, y as i32)) || old.hbar.is_some_and(|r| r.contains_point(x as i32, y as i32)) {
                    continue;
                }
                for kind in [MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::Up(MouseButton::Left)] {
                    let (x, y) = if matches!(kind, MouseEventKind::Drag(_)) { inside(g, &st) } else { (x, y) };
                    st.send(mouse_event(kind, x, y), sender);
                }
                g.note(|| format!("press, drag and release at {x},{y}, off the bars"));
                view = seen!(st);
                ensure_eq!((view.ox, view.oy), (old.ox, old.oy), "scroll position after dragging inside the content");
            }
        }
        moved += ((old.ox, old.oy) != (view.ox, view.oy)) as usize;
    }
    g.label_if(st.nested, "nested");
    g.label_if(blocks > 1, "more than one block");
    g.label_if(margins, "margins");
    g.label(match st.host {
        Host::Screen => "screen",
        Host::Container => "container",
        _ => "scrollable",
    });
    g.label_if(view.vthumb.is_some() && view.hthumb.is_some(), "both thumbs");
    g.nontrivial_if(moved >= 2);
    Ok(())
}

/// A page step: towards `dir`, by at least half of the window (unless that is past the end), and never past anything unseen.
fn page(old: i32, new: i32, dir: i32, max: i32, window: i32) -> R {
    let d = (new - old) * dir;
    let room = if dir < 0 { old } else { max - old };
    ensure!(d >= room.min((window / 2).max(1)) && d <= window.max(1), "a page step of {window} rows moved from {old} to {new} (limit {max})");
    Ok(())
}

/// The scroll state on its own, against plain integers.
fn state(g: &mut G) -> R {
    let dim = |g: &mut G| if g.chance(1, 8) { g.i32(0, 100_000) } else { g.i32(0, 60) };
    let mut s = ScrollState::new(dim(g), dim(g), dim(g), dim(g));
    let (mut x, mut y) = (0, 0);
    g.note(|| format!("{s:?}"));
    let mut moved = false;
    for _ in 0..g.usize(1, 12) {
        let (px, py) = (x, y);
        let n = if g.chance(1, 6) { g.i32(0, 200_000) } else { g.i32(0, 20) };
        match g.below(8) {
            0 => { s.scroll_up(n); y -= n; g.note(|| format!("up {n}")) }
            1 => { s.scroll_down(n); y += n; g.note(|| format!("down {n}")) }
            2 => { s.scroll_left(n); x -= n; g.note(|| format!("left {n}")) }
            3 => { s.scroll_right(n); x += n; g.note(|| format!("right {n}")) }
            4 => {
                let f = |g: &mut G| g.bool().then(|| g.i32(-400, 4000) as f32 / 8.0);
                let (a, b) = (f(g), f(g));
                s.scroll_to(a, b);
                if let Some(a) = a { x = a.floor() as i32 }
                if let Some(b) = b { y = b.floor() as i32 }
                g.note(|| format!("to {a:?} {b:?}"));
            }
            5 => { let (a, b) = (dim(g), dim(g)); s.set_viewport(a, b); g.note(|| format!("viewport {a}x{b}")) }
            6 => { let (a, b) = (dim(g), dim(g)); s.set_virtual_size(a, b); g.note(|| format!("content {a}x{b}")) }
            _ => {}
        }
        let mx = (s.virtual_width - s.viewport_width).max(0);
        let my = (s.virtual_height - s.viewport_height).max(0);
        x = x.clamp(0, mx);
        y = y.clamp(0, my);
        ensure_eq!((s.offset_x, s.offset_y), (x, y), "offset in {s:?}");
        ensure_eq!((s.max_scroll_x(), s.max_scroll_y()), (mx, my), "limits of {s:?}");
        ensure_eq!((s.can_scroll_x(), s.can_scroll_y()), (mx > 0, my > 0), "can scroll, in {s:?}");
        for (p, o, m) in [(s.scroll_percent_x(), x, mx), (s.scroll_percent_y(), y, my)] {
            ensure!((0.0..=1.0).contains(&p) && (m == 0 || (p as f64 - o as f64 / m as f64).abs() < 1e-5) && (m > 0 || p == 0.0), "fraction {p} at {o} of {m}");
        }
        moved |= (px, py) != (x, y);
    }
    g.nontrivial_if(moved);
    Ok(())
}

pub static P16: Property = Property {
    id: "C16",
    rule: "at least two steps of the history moved the content (state: some step moved the offset)",
    assumptions: &["content of one widget of up to 240x240 cells, or of up to three of up to 70x60 cells with margins; screens up to 30x20", "a wheel step is one line in scrolling containers and three in screens and plain containers"],
    parts: &[
        Part { name: "history", quick: 60_000, thorough: 1_500_000, f: history },
        Part { name: "state", quick: 300_000, thorough: 5_000_000, f: state },
    ],
};
