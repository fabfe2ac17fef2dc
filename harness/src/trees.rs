//! Random widget trees of every container kind with probe leaves: a probe paints its whole region in its own
//! letter and records what reaches it.
use crate::engine::G;
use crossterm::event::{KeyModifiers, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::border::BorderKind;
use tcss::types::{
    AlignHorizontal, AlignVertical, ComputedStyle, Dock, Layout as Kind, Overflow, Position, RgbaColor, Scalar, ScrollbarGutter,
    ScrollbarVisibility, Unit,
};
use textual::containers::{Center, Middle, item_grid::ItemGrid};
use textual::{Canvas, Container, Grid, Horizontal, HorizontalScroll, Region, ScrollableContainer, Size, Vertical, VerticalScroll, Widget};

pub type Msg = usize;

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub probe: usize,
    pub region: (i32, i32, i32, i32),
}

#[derive(Default)]
pub struct Log {
    pub mouse: Vec<Seen>,
    pub painted: Vec<Seen>,
    pub hover: Vec<usize>,
}
pub type Shared = Rc<RefCell<Log>>;

pub struct Probe {
    pub id: usize,
    pub desired: Size,
    pub style: ComputedStyle,
    pub replies: bool,
    pub log: Shared,
}

pub fn letter(id: usize) -> char {
    (b'A' + (id % 26) as u8) as char
}
fn quad(r: Region) -> (i32, i32, i32, i32) {
    (r.x, r.y, r.width, r.height)
}

impl Widget<Msg> for Probe {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        self.log.borrow_mut().painted.push(Seen { probe: self.id, region: quad(region) });
        // Only what can be on the test canvases: a region may be thousands of cells large.
        let (x0, x1) = (region.x.max(-4), (region.x + region.width).min(80));
        let row: String = std::iter::repeat_n(letter(self.id), (x1 - x0).max(0) as usize).collect();
        for y in region.y.max(-4)..(region.y + region.height).min(60) {
            canvas.put_str(x0, y, &row, None, None, Default::default());
        }
    }
    fn desired_size(&self) -> Size {
        self.desired
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn on_mouse(&mut self, e: MouseEvent, region: Region) -> Option<Msg> {
        let mut l = self.log.borrow_mut();
        l.mouse.push(Seen { probe: self.id, region: quad(region) });
        // Odd probes rely on being told, even ones notice the pointer themselves as buttons do.
        let inside = region.contains_point(e.column as i32, e.row as i32);
        if self.id % 2 == 0 && e.kind == MouseEventKind::Moved && !l.hover.contains(&self.id) && inside {
            l.hover.push(self.id);
        }
        self.replies.then_some(self.id)
    }
    fn set_hover(&mut self, on: bool) -> bool {
        let mut l = self.log.borrow_mut();
        l.hover.retain(|p| *p != self.id);
        if on {
            l.hover.push(self.id);
        }
        true
    }
    fn clear_hover(&mut self) {
        self.set_hover(false);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Box_ {
    Probe,
    Container,
    Vertical,
    Horizontal,
    Grid,
    ItemGrid,
    Scrollable,
    VScroll,
    HScroll,
    Center,
    Middle,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Box_,
    pub style: ComputedStyle,
    pub kids: Vec<Spec>,
    pub id: usize,
    pub replies: bool,
    pub desired: Size,
}

fn sc(value: f64, unit: Unit) -> Scalar {
    Scalar { value, unit }
}

fn size_of(g: &mut G, hi: i64) -> Option<Scalar> {
    match g.weighted(&[4, 4, 3, 2, 1, 1, 1]) {
        0 => Some(sc(g.int(1, hi) as f64, Unit::Cells)),
        1 => Some(sc(*g.of(&[1.0, 2.0, 3.0]), Unit::Fraction)),
        2 => None,
        3 => Some(sc(*g.of(&[50.0, 100.0, 30.0, 120.0]), Unit::Percent)),
        4 => Some(sc(0.0, Unit::Auto)),
        5 => Some(sc(*g.of(&[50.0, 25.0, 40.0]), Unit::ViewWidth)),
        _ => Some(sc(*g.of(&[50.0, 25.0, 40.0]), Unit::ViewHeight)),
    }
}

/// `busy`: boxes are filled (they must be where siblings may overlap: an empty box takes the pointer from what shows through).
fn style_for(g: &mut G, kind: Box_, special: bool, busy: bool) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.width = size_of(g, 20);
    s.height = size_of(g, 10);
    if kind != Box_::Probe {
        // A box sized by its content may hold children that fill whatever they are given: such a box is 65535 cells
        // wide and takes a second to paint.
        for d in [&mut s.width, &mut s.height] {
            if d.as_ref().is_none_or(|d| d.unit == Unit::Auto) {
                *d = Some(sc(*g.of(&[1.0, 2.0]), Unit::Fraction));
            }
        }
    }
    if kind == Box_::Probe && g.chance(1, 3) {
        for e in [&mut s.margin.top, &mut s.margin.right, &mut s.margin.bottom, &mut s.margin.left] {
            e.value = *g.of(&[0.0, 1.0, 2.0]);
        }
    }
    if kind != Box_::Probe {
        if g.chance(1, 2) {
            for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] {
                e.kind = *g.of(&[BorderKind::Solid, BorderKind::Solid, BorderKind::None]);
            }
        }
        if g.chance(1, 3) {
            for e in [&mut s.padding.top, &mut s.padding.right, &mut s.padding.bottom, &mut s.padding.left] {
                e.value = g.int(0, 2) as f64;
            }
        }
        let o = [Overflow::Hidden, Overflow::Auto, Overflow::Scroll, Overflow::Auto];
        s.overflow_x = *g.of(&o);
        s.overflow_y = *g.of(&o);
        s.scrollbar.size.vertical = g.u16(0, 2);
        s.scrollbar.size.horizontal = g.u16(0, 2);
        if g.chance(1, 6) {
            s.scrollbar.gutter = ScrollbarGutter::Stable;
        }
        if g.chance(1, 6) {
            s.scrollbar.visibility = ScrollbarVisibility::Hidden;
        }
        s.align_horizontal = *g.of(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
        s.align_vertical = *g.of(&[AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom]);
        s.layout = match kind {
            Box_::Grid | Box_::ItemGrid => Kind::Grid,
            Box_::Vertical | Box_::VScroll => Kind::Vertical,
            Box_::Horizontal | Box_::HScroll => Kind::Horizontal,
            _ => *g.of(&[Kind::Vertical, Kind::Horizontal, Kind::Grid]),
        };
        if s.layout == Kind::Grid {
            s.grid.columns = Some(g.u16(1, 3));
            if g.bool() {
                s.grid.rows = Some(g.u16(1, 3));
            }
            if g.chance(1, 3) {
                s.grid.gutter = (sc(g.int(0, 2) as f64, Unit::Cells), sc(g.int(0, 2) as f64, Unit::Cells));
            }
        }
        if busy {
            s.background = Some(RgbaColor::rgb(g.u8(), g.u8(), g.u8()));
        }
    }
    if special {
        match g.weighted(&[4, 2, 2]) {
            0 => {}
            1 => s.dock = Some(*g.of(&[Dock::Top, Dock::Bottom, Dock::Left, Dock::Right])),
            _ => s.position = Position::Absolute,
        }
        if g.chance(1, 3) {
            s.layer = Some(g.pick(&["low", "high"]).to_string());
        }
        if g.chance(1, 3) {
            s.offset_x = Some(sc(g.int(-4, 8) as f64, Unit::Cells));
            s.offset_y = Some(sc(g.int(-3, 5) as f64, Unit::Cells));
        }
    }
    s
}

pub fn gen_node(g: &mut G, depth: usize, special: bool, overlap: bool, next: &mut usize) -> Spec {
    let leaf = depth == 0 || *next >= 20;
    let kind = if leaf {
        Box_::Probe
    } else {
        *g.of(&[
            Box_::Probe,
            Box_::Container,
            Box_::Container,
            Box_::Vertical,
            Box_::Horizontal,
            Box_::Grid,
            Box_::ItemGrid,
            Box_::Scrollable,
            Box_::VScroll,
            Box_::HScroll,
            if overlap { Box_::Probe } else { Box_::Center },
            if overlap { Box_::Probe } else { Box_::Middle },
        ])
    };
    let filled = overlap || g.bool();
    let mut style = style_for(g, kind, special, filled);
    let mut kids = vec![];
    let id = *next;
    match kind {
        Box_::Probe => *next += 1,
        Box_::Center | Box_::Middle => {
            style = ComputedStyle::default();
            kids.push(gen_node(g, depth - 1, false, overlap, next));
        }
        _ => {
            // Grid and ItemGrid hand every child to the grid; the others honour docks, layers and positions.
            let sp = !matches!(kind, Box_::Grid | Box_::ItemGrid) && g.chance(1, 3);
            if sp && g.bool() {
                style.layers = Some(vec!["low".into(), "default".into(), "high".into()]);
            }
            let n = g.usize(1, 4);
            for _ in 0..n {
                let overlap = overlap || sp || style.layout == Kind::Grid;
                kids.push(gen_node(g, depth - 1, sp, overlap, next));
            }
        }
    }
    let desired = Size { width: g.u16(1, 12), height: g.u16(1, 5) };
    Spec { kind, style, kids, id, replies: g.bool(), desired }
}

pub fn build(s: &Spec, log: &Shared) -> Box<dyn Widget<Msg>> {
    let kids = |s: &Spec| s.kids.iter().map(|k| build(k, log)).collect::<Vec<_>>();
    let mut w: Box<dyn Widget<Msg>> = match s.kind {
        Box_::Probe => Box::new(Probe { id: s.id, desired: s.desired, style: s.style.clone(), replies: s.replies, log: log.clone() }),
        Box_::Container => Box::new(Container::new(kids(s))),
        Box_::Vertical => Box::new(Vertical::new(kids(s))),
        Box_::Horizontal => Box::new(Horizontal::new(kids(s))),
        Box_::Grid => Box::new(Grid::new(kids(s))),
        Box_::ItemGrid => Box::new(ItemGrid::new(kids(s)).with_min_column_width(4 + s.desired.width)),
        Box_::Scrollable => Box::new(ScrollableContainer::new(kids(s))),
        Box_::VScroll => Box::new(VerticalScroll::new(kids(s))),
        Box_::HScroll => Box::new(HorizontalScroll::new(kids(s))),
        Box_::Center => Box::new(Center::new(kids(s))),
        Box_::Middle => Box::new(Middle::new(kids(s))),
    };
    w.set_style(s.style.clone());
    w
}

fn scalar_text(s: &Option<Scalar>) -> String {
    match s {
        None => "-".into(),
        Some(s) => format!("{}{:?}", s.value, s.unit),
    }
}

pub fn show(s: &Spec, indent: usize, out: &mut String) {
    use std::fmt::Write;
    let y = &s.style;
    let _ = write!(out, "{:indent$}{:?}", "", s.kind, indent = indent);
    if s.kind == Box_::Probe {
        let _ = write!(out, " {}{} wants {}x{}", letter(s.id), if s.replies { "!" } else { "" }, s.desired.width, s.desired.height);
    }
    let _ = write!(out, " w={} h={}", scalar_text(&y.width), scalar_text(&y.height));
    if s.kind != Box_::Probe && !matches!(s.kind, Box_::Center | Box_::Middle) {
        let _ = write!(
            out,
            " {:?} overflow {:?}/{:?} bars {}x{} {:?} {:?} align {:?}/{:?} borders {:?} pad {:?} bg={}",
            y.layout,
            y.overflow_x,
            y.overflow_y,
            y.scrollbar.size.vertical,
            y.scrollbar.size.horizontal,
            y.scrollbar.gutter,
            y.scrollbar.visibility,
            y.align_horizontal,
            y.align_vertical,
            [y.border.top.kind, y.border.right.kind, y.border.bottom.kind, y.border.left.kind].map(|k| k != BorderKind::None),
            [y.padding.top.value, y.padding.right.value, y.padding.bottom.value, y.padding.left.value],
            y.background.is_some()
        );
        if y.layout == Kind::Grid {
            let _ = write!(out, " cols={:?} rows={:?} gutter={}/{}", y.grid.columns, y.grid.rows, y.grid.gutter.0.value, y.grid.gutter.1.value);
        }
        if let Some(l) = &y.layers {
            let _ = write!(out, " layers={l:?}");
        }
    } else {
        let _ = write!(out, " margin {:?}", [y.margin.top.value, y.margin.right.value, y.margin.bottom.value, y.margin.left.value]);
    }
    if y.dock.is_some() || y.position == Position::Absolute || y.layer.is_some() || y.offset_x.is_some() {
        let _ = write!(out, " dock={:?} {:?} layer={:?} offset={}/{}", y.dock, y.position, y.layer, scalar_text(&y.offset_x), scalar_text(&y.offset_y));
    }
    out.push('\n');
    for k in &s.kids {
        show(k, indent + 2, out);
    }
}

pub fn mouse_event(kind: MouseEventKind, x: u16, y: u16) -> MouseEvent {
    MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }
}
