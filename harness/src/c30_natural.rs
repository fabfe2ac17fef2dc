//! C30: natural sizes. A box that sizes itself to its content is exactly as large as its content laid out, and painted at
//! that size it shows every child at the child's own natural size, nothing cut off and no cell left over. Centring boxes
//! put their child in the middle.
use crate::c11_canvas::{Glyph, canvas_cells};
use crate::engine::{G, Part, Property, R};
use crate::trees::{Log, Msg, Probe, Shared, letter};
use crate::{ensure, ensure_eq};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::border::BorderKind;
use tcss::types::{BoxSizing, ComputedStyle, Display, Layout as Kind, Overflow, RgbaColor, Scalar, Unit, Visibility};
use textual::containers::{Center, Middle};
use textual::{Canvas, Container, Grid, Horizontal, HorizontalScroll, Region, ScrollableContainer, Size, Static, Vertical, VerticalScroll, Widget};

pub const P30: Property = Property {
    id: "C30",
    rule: "two or more leaves (hug); a child that fills or a size in the style (extent); room left around the child (centre)",
    assumptions: &[],
    parts: &[
        Part { name: "hug", quick: 96_000, thorough: 960_000, f: hug },
        Part { name: "extent", quick: 160_000, thorough: 1_600_000, f: extent },
        Part { name: "centre", quick: 160_000, thorough: 1_600_000, f: centre },
    ],
};

const FILL: u16 = u16::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Probe,
    Text,
    Container,
    Vertical,
    Horizontal,
    Scrollable,
    VScroll,
    HScroll,
}

struct Node {
    what: What,
    style: ComputedStyle,
    /// Lines of text, or the probe's size.
    lines: Vec<String>,
    size: (u16, u16),
    id: usize,
    kids: Vec<Node>,
}

fn sc(value: f64, unit: Unit) -> Option<Scalar> {
    Some(Scalar { value, unit })
}

fn edges(g: &mut G, s: &mut ComputedStyle) {
    if g.chance(1, 2) {
        let all = g.bool();
        for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] {
            e.kind = if all { BorderKind::Solid } else { *g.of(&[BorderKind::Solid, BorderKind::None, BorderKind::Heavy, BorderKind::Hidden]) };
        }
    }
    if g.chance(1, 2) {
        for e in [&mut s.padding.top, &mut s.padding.right, &mut s.padding.bottom, &mut s.padding.left] {
            e.value = g.int(0, 3) as f64;
        }
    }
}

fn drawn(k: BorderKind) -> i32 {
    !matches!(k, BorderKind::None | BorderKind::Hidden) as i32
}
/// top, right, bottom, left
fn chrome(s: &ComputedStyle) -> [i32; 4] {
    let (b, p) = (&s.border, &s.padding);
    [
        drawn(b.top.kind) + p.top.value as i32,
        drawn(b.right.kind) + p.right.value as i32,
        drawn(b.bottom.kind) + p.bottom.value as i32,
        drawn(b.left.kind) + p.left.value as i32,
    ]
}
fn margin(s: &ComputedStyle) -> [i32; 4] {
    [s.margin.top.value, s.margin.right.value, s.margin.bottom.value, s.margin.left.value].map(|v| v as i32)
}

fn node(g: &mut G, depth: usize, next: &mut usize) -> Node {
    let mut s = ComputedStyle::default();
    let what = if depth == 0 || (depth < 3 && g.chance(2, 5)) {
        *g.of(&[What::Probe, What::Text])
    } else {
        *g.of(&[What::Container, What::Container, What::Vertical, What::Horizontal, What::Scrollable, What::VScroll, What::HScroll])
    };
    s.width = sc(0.0, Unit::Auto);
    s.height = sc(0.0, Unit::Auto);
    if g.chance(1, 2) {
        for e in [&mut s.margin.top, &mut s.margin.right, &mut s.margin.bottom, &mut s.margin.left] {
            e.value = *g.of(&[0.0, 1.0, 2.0, 4.0, 0.0]);
        }
    }
    if g.chance(1, 8) {
        s.display = Display::None;
    }
    if g.chance(1, 12) {
        s.visibility = Visibility::Hidden;
    }
    let (mut lines, mut size, mut kids) = (vec![], (0, 0), vec![]);
    let id = *next;
    match what {
        What::Probe => {
            *next += 1;
            size = (g.u16(1, 14), g.u16(1, 5));
            if g.chance(1, 4) {
                s.width = sc(size.0 as f64, Unit::Cells);
            }
            if g.chance(1, 4) {
                s.height = sc(size.1 as f64, Unit::Cells);
            }
        }
        What::Text => {
            *next += 1;
            for _ in 0..g.usize(1, 3) {
                let n = g.usize(1, 12);
                lines.push((0..n).map(|i| if i > 0 && i + 1 < n && g.chance(1, 5) { ' ' } else { g.pick(&["a", "q", "7", "é", "."]).chars().next().unwrap() }).collect());
            }
            edges(g, &mut s);
            if g.chance(1, 5) {
                s.line_pad = g.u16(1, 2);
            }
        }
        _ => {
            edges(g, &mut s);
            // The kinds with a direction of their own keep it whatever the stylesheet says.
            s.layout = match what {
                What::VScroll => Kind::Vertical,
                What::HScroll => Kind::Horizontal,
                _ => *g.of(&[Kind::Vertical, Kind::Horizontal]),
            };
            s.overflow_x = *g.of(&[Overflow::Auto, Overflow::Hidden]);
            s.overflow_y = *g.of(&[Overflow::Auto, Overflow::Hidden]);
            if g.bool() {
                s.background = Some(RgbaColor::rgb(1, 2, 3));
            }
            for _ in 0..g.usize(0, 4) {
                kids.push(node(g, depth - 1, next));
            }
        }
    }
    Node { what, style: s, lines, size, id, kids }
}

impl Node {
    fn horizontal(&self) -> bool {
        match self.what {
            What::Vertical | What::VScroll => false,
            What::Horizontal | What::HScroll => true,
            _ => self.style.layout == Kind::Horizontal,
        }
    }

    /// The size the node has by itself.
    fn natural(&self) -> (i32, i32) {
        let c = chrome(&self.style);
        match self.what {
            What::Probe => (self.size.0 as i32, self.size.1 as i32),
            What::Text => {
                let w = self.lines.iter().map(|l| l.chars().count()).max().unwrap_or(0) as i32;
                (w + 2 * self.style.line_pad as i32 + c[1] + c[3], self.lines.len() as i32 + c[0] + c[2])
            }
            _ => {
                let (w, h, _) = self.flow();
                (w + c[1] + c[3], h + c[0] + c[2])
            }
        }
    }

    /// Extent of the content and the place of each laid-out child in it.
    fn flow(&self) -> (i32, i32, Vec<(usize, i32, i32)>) {
        let mut at = vec![];
        let (mut along, mut across, mut before) = (0, 0, None::<i32>);
        for (i, k) in self.kids.iter().enumerate().filter(|(_, k)| k.style.display != Display::None) {
            let (w, h) = k.natural();
            let m = margin(&k.style);
            let (lead, trail, own, side) = if self.horizontal() { (m[3], m[1], w, m[0] + h + m[2]) } else { (m[0], m[2], h, m[3] + w + m[1]) };
            // Touching margins overlap: only the larger one counts.
            along += match before {
                None => lead,
                Some(b) => lead.max(b),
            };
            at.push((i, if self.horizontal() { along } else { m[3] }, if self.horizontal() { m[0] } else { along }));
            along += own;
            before = Some(trail);
            across = across.max(side);
        }
        along += before.unwrap_or(0);
        let (w, h) = if self.horizontal() { (along, across) } else { (across, along) };
        (w, h, at)
    }

    /// Every leaf with the region it is expected at, when this node is at (x, y).
    fn leaves<'a>(&'a self, x: i32, y: i32, out: &mut Vec<(&'a Node, (i32, i32, i32, i32))>) {
        let (w, h) = self.natural();
        match self.what {
            What::Probe | What::Text => out.push((self, (x, y, w, h))),
            _ => {
                let c = chrome(&self.style);
                for (i, dx, dy) in self.flow().2 {
                    self.kids[i].leaves(x + c[3] + dx, y + c[0] + dy, out);
                }
            }
        }
    }

    fn build(&self, log: &Shared) -> Box<dyn Widget<Msg>> {
        let kids = || self.kids.iter().map(|k| k.build(log)).collect::<Vec<_>>();
        let mut w: Box<dyn Widget<Msg>> = match self.what {
            What::Probe => Box::new(Probe { id: self.id, desired: Size { width: self.size.0, height: self.size.1 }, style: self.style.clone(), replies: false, log: log.clone() }),
            What::Text => Box::new(Static::new(self.lines.join("\n")).with_markup(false)),
            What::Container => Box::new(Container::new(kids())),
            What::Vertical => Box::new(Vertical::new(kids())),
            What::Horizontal => Box::new(Horizontal::new(kids())),
            What::Scrollable => Box::new(ScrollableContainer::new(kids())),
            What::VScroll => Box::new(VerticalScroll::new(kids())),
            What::HScroll => Box::new(HorizontalScroll::new(kids())),
        };
        w.set_style(self.style.clone());
        w
    }

    fn show(&self, depth: usize) -> String {
        let s = &self.style;
        let mut t = format!("\n{:1$}{2:?}", "", depth * 2, self.what);
        match self.what {
            What::Probe => t += &format!(" {} {}x{}", letter(self.id), self.size.0, self.size.1),
            What::Text => t += &format!(" {:?} line-pad {}", self.lines, s.line_pad),
            _ => t += &format!(" {:?} overflow {:?}/{:?}", s.layout, s.overflow_x, s.overflow_y),
        }
        t += &format!(" margin {:?} chrome {:?}", margin(s), chrome(s));
        if s.display == Display::None {
            t += " display:none";
        }
        if s.visibility == Visibility::Hidden {
            t += " hidden";
        }
        for k in &self.kids {
            t += &k.show(depth + 1);
        }
        t
    }
}

fn hug(g: &mut G) -> R {
    let mut next = 0;
    let mut root = node(g, 3, &mut next);
    root.style.display = Display::Block;
    let (w, h) = root.natural();
    let (ox, oy) = (g.i32(0, 3), g.i32(0, 2));
    g.note(|| root.show(0));
    let log: Shared = Rc::new(RefCell::new(Log::default()));
    let widget = root.build(&log);
    let d = widget.desired_size();
    ensure_eq!((d.width as i32, d.height as i32), (w, h), "natural size of the root");
    ensure_eq!(widget.intrinsic_height_for_width(w as u16) as i32, h, "natural height at the natural width");
    let mut leaves = vec![];
    root.leaves(ox, oy, &mut leaves);
    g.nontrivial_if(leaves.len() >= 2);
    g.label_if(leaves.iter().any(|(n, _)| n.what == What::Text), "with text");
    g.label_if(root.kids.iter().any(|k| !k.kids.is_empty()), "nested boxes");
    if w == 0 || h == 0 {
        return Ok(());
    }
    let mut canvas = Canvas::new((w + ox + 4) as u16, (h + oy + 4) as u16);
    widget.render(&mut canvas, Region { x: ox, y: oy, width: w, height: h });
    let cells = canvas_cells(&canvas);
    let cw = canvas.size().0 as usize;
    let log = log.borrow();
    for (n, r) in leaves {
        if n.what == What::Probe {
            // A scrolling box may lay out twice, never paint in two places.
            let mut got: Vec<_> = log.painted.iter().filter(|s| s.probe == n.id).map(|s| s.region).collect();
            got.dedup();
            ensure_eq!(got, vec![r], "where {} is painted", letter(n.id));
            for y in r.1..(r.1 + r.3).min(60) {
                for x in r.0..(r.0 + r.2).min(80) {
                    let c = &cells[y as usize * cw + x as usize].glyph;
                    let want = Glyph::Lead(letter(n.id).to_string());
                    ensure!(*c == want, "cell ({x},{y}) of {} shows {c:?}", letter(n.id));
                }
            }
        } else if n.style.visibility != Visibility::Hidden {
            let c = chrome(&n.style);
            let (x0, y0) = (r.0 + c[3] + n.style.line_pad as i32, r.1 + c[0]);
            for (i, l) in n.lines.iter().enumerate() {
                let row = &cells[(y0 as usize + i) * cw..];
                for (j, ch) in l.chars().enumerate() {
                    let got = &row[x0 as usize + j].glyph;
                    let want = Glyph::Lead(ch.to_string());
                    ensure!(*got == want, "line {i} of {:?}: cell {j} shows {got:?}", n.lines);
                }
            }
        }
    }
    Ok(())
}

/// Sizes given in cells are kept, sizes given relative to the surroundings ask for all the room there is, automatic ones
/// follow the content; each axis by itself.
fn extent(g: &mut G) -> R {
    let mut next = 0;
    let mut root = node(g, 1, &mut next);
    while root.what == What::Probe {
        root = node(g, 3, &mut next);
    }
    root.style.display = Display::Block;
    let mut fills = (false, false);
    for k in root.kids.iter_mut().filter(|k| k.what == What::Probe) {
        if g.chance(1, 4) {
            k.size.0 = FILL;
            fills.0 |= k.style.display != Display::None;
        }
        if g.chance(1, 4) {
            k.size.1 = FILL;
            fills.1 |= k.style.display != Display::None;
        }
    }
    let grid = root.what == What::Container && g.chance(1, 6);
    let mut dim = |g: &mut G| match g.weighted(&[3, 2, 2, 3]) {
        0 => sc(0.0, Unit::Auto),
        1 => None,
        2 => sc(g.int(0, 40) as f64, Unit::Cells),
        _ => sc(*g.of(&[50.0, 100.0, 1.0]), *g.of(&[Unit::Percent, Unit::Fraction, Unit::ViewWidth, Unit::ViewHeight, Unit::Width, Unit::Height])),
    };
    root.style.width = dim(g);
    root.style.height = dim(g);
    let text = root.what == What::Text;
    if text && g.bool() {
        root.style.box_sizing = BoxSizing::ContentBox;
    }
    g.note(|| format!("{} grid={grid} w={:?} h={:?} {:?}", root.show(0), root.style.width, root.style.height, root.style.box_sizing));
    let log: Shared = Rc::new(RefCell::new(Log::default()));
    let d = if grid {
        let mut w: Grid<Msg> = Grid::new(vec![]);
        w.set_style(root.style.clone());
        w.desired_size()
    } else {
        root.build(&log).desired_size()
    };
    // What fills does not add to the natural size of the other axis.
    let (nw, nh) = root.natural();
    let c = chrome(&root.style);
    let extra = |on: i32| if text && root.style.box_sizing == BoxSizing::ContentBox { on } else { 0 };
    let want = |s: &Option<Scalar>, natural: i32, fill: bool, around: i32| match s {
        Some(s) if s.unit == Unit::Cells => s.value as i32 + extra(around),
        Some(s) if s.unit != Unit::Auto => FILL as i32,
        _ if grid || fill => FILL as i32,
        _ => natural,
    };
    let expect = (want(&root.style.width, nw, fills.0, c[1] + c[3]), want(&root.style.height, nh, fills.1, c[0] + c[2]));
    g.nontrivial_if(fills.0 || fills.1 || root.style.width.as_ref().is_some_and(|w| w.unit != Unit::Auto));
    g.label_if(fills.0 != fills.1, "one axis fills");
    ensure_eq!((d.width as i32, d.height as i32), expect, "size asked for");
    Ok(())
}

fn centre(g: &mut G) -> R {
    let log: Shared = Rc::new(RefCell::new(Log::default()));
    let size = (g.u16(0, 20), g.u16(0, 12));
    let fill = (g.chance(1, 8), g.chance(1, 8));
    let desired = Size { width: if fill.0 { FILL } else { size.0 }, height: if fill.1 { FILL } else { size.1 } };
    let hidden = g.chance(1, 10);
    let mut style = ComputedStyle::default();
    if hidden {
        style.display = Display::None;
    }
    let region = Region { x: g.i32(-3, 5), y: g.i32(-3, 5), width: g.i32(0, 24), height: g.i32(0, 14) };
    let probe: Box<dyn Widget<Msg>> = Box::new(Probe { id: 0, desired, style, replies: false, log: log.clone() });
    let (mut x, mut y, mut w, mut h) = (region.x, region.y, region.width, region.height);
    let kinds = *g.of(&["C", "M", "CM", "MC", "CC"]);
    g.note(|| format!("{kinds} child {desired:?} display none {hidden} in {region:?}"));
    let mut widget = probe;
    for k in kinds.chars().rev() {
        widget = if k == 'C' { Box::new(Center::from_child(widget)) } else { Box::new(Middle::from_child(widget)) };
    }
    for k in kinds.chars() {
        if k == 'C' {
            let own = (desired.width as i32).min(w);
            (x, w) = (x + (w - own) / 2, own);
        } else {
            let own = (desired.height as i32).min(h);
            (y, h) = (y + (h - own) / 2, own);
        }
    }
    let d = widget.desired_size();
    if kinds.len() == 1 {
        let want = if hidden { Size { width: 0, height: 0 } } else { desired };
        ensure_eq!((d.width, d.height), (want.width, want.height), "natural size of a centring box");
    }
    let mut canvas = Canvas::new(40, 30);
    widget.render(&mut canvas, region);
    let got: Vec<_> = log.borrow().painted.iter().map(|s| s.region).collect();
    g.nontrivial_if(!hidden && w > 0 && h > 0 && (w < region.width || h < region.height));
    if hidden && kinds.len() == 1 {
        ensure!(got.is_empty(), "a child that is not displayed was painted at {got:?}");
    } else if !hidden {
        ensure_eq!(got, vec![(x, y, w, h)], "where the child is painted");
    }
    Ok(())
}
