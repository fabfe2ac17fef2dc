//! C13 stacks (vertical/horizontal), C14 grid, C15 docks, layers, alignment, offsets, absolute position.
//! Every part lays generated children out with the real code and with the plain model below.
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq};
use std::cell::Cell;
use std::collections::HashSet;
use tcss::types::border::BorderKind;
use tcss::types::{AlignHorizontal, AlignVertical, BoxSizing, ComputedStyle, Dock, Layout as Kind, Position, Scalar, Unit};
use textual::Fraction;
use textual::layouts::{
    GridLayout, LayoutChild, LayoutNode, Viewport, WidgetPlacement, arrange_children_with_layers, arrange_children_with_pre_layout,
    arrange_children_with_viewport,
};
use textual::{Region, Size};

pub const FILL: u16 = u16::MAX;

/// A child as the model sees it.
#[derive(Clone)]
pub struct Kid {
    pub style: ComputedStyle,
    pub desired: Size,
    /// Cells of flowing text: its height is what is left after wrapping to the width.
    pub text: Option<u16>,
}

struct Node(Kid);
impl LayoutNode for Node {
    fn desired_size(&self) -> Size {
        self.0.desired
    }
    fn intrinsic_height_for_width(&self, w: u16) -> u16 {
        self.0.height_for(w as i32) as u16
    }
}

impl Kid {
    fn height_for(&self, w: i32) -> i32 {
        match self.text {
            Some(t) => (t as i32 + w.max(1) - 1) / w.max(1),
            None => self.desired.height as i32,
        }
    }
}

type Rect = (i32, i32, i32, i32);
fn rect(r: &Region) -> Rect {
    (r.x, r.y, r.width, r.height)
}

thread_local! {
    /// Set when a percentage lands exactly on a cell boundary where double arithmetic may fall on either side.
    static AMBIGUOUS: Cell<bool> = const { Cell::new(false) };
}

fn part_of(v: f64, basis: i32) -> f64 {
    let exact = v * basis as f64 / 100.0;
    let other = (v / 100.0) * basis as f64;
    if exact.floor() != other.floor() || exact.round() != other.round() || exact.trunc() != other.trunc() {
        AMBIGUOUS.with(|a| a.set(true));
    }
    exact
}
fn fl(v: f64) -> i32 {
    (v + 1e-6).floor() as i32
}

#[derive(Clone, Copy)]
struct Space {
    w: i32,
    h: i32,
    vw: i32,
    vh: i32,
}

/// A length other than fr and auto, on the axis whose own extent is `own`.
fn length(s: &Scalar, sp: Space, own: i32) -> f64 {
    match s.unit {
        Unit::Cells => s.value.trunc(),
        Unit::Percent => part_of(s.value, own),
        Unit::Width => part_of(s.value, sp.w),
        Unit::Height => part_of(s.value, sp.h),
        Unit::ViewWidth => part_of(s.value, sp.vw),
        Unit::ViewHeight => part_of(s.value, sp.vh),
        Unit::Fraction | Unit::Auto => s.value.trunc(),
    }
}

fn chrome(a: BorderKind, b: BorderKind, pa: f64, pb: f64) -> i32 {
    let e = |k: BorderKind| !matches!(k, BorderKind::None | BorderKind::Hidden) as i32;
    e(a) + e(b) + pa as i32 + pb as i32
}
fn chrome_x(s: &ComputedStyle) -> i32 {
    match s.box_sizing {
        BoxSizing::BorderBox => 0,
        BoxSizing::ContentBox => chrome(s.border.left.kind, s.border.right.kind, s.padding.left.value, s.padding.right.value),
    }
}
fn chrome_y(s: &ComputedStyle) -> i32 {
    match s.box_sizing {
        BoxSizing::BorderBox => 0,
        BoxSizing::ContentBox => chrome(s.border.top.kind, s.border.bottom.kind, s.padding.top.value, s.padding.bottom.value),
    }
}

fn margins(s: &ComputedStyle) -> (i32, i32, i32, i32) {
    (s.margin.top.value as i32, s.margin.right.value as i32, s.margin.bottom.value as i32, s.margin.left.value as i32)
}

fn limit(v: i32, max: &Option<Scalar>, min: &Option<Scalar>, sp: Space, own: i32) -> i32 {
    let mut v = v;
    if let Some(m) = max {
        v = v.min(length(m, sp, own).trunc() as i32);
    }
    if let Some(m) = min {
        v = v.max(length(m, sp, own).trunc() as i32);
    }
    v
}

fn gap(i: usize, prev_after: i32, before: i32) -> i32 {
    if i == 0 { before } else { (before - prev_after).max(0) }
}

pub fn model_vertical(kids: &[&Kid], av: Region, vp: Viewport) -> Vec<Rect> {
    let sp = Space { w: av.width, h: av.height, vw: vp.width, vh: vp.height };
    let width = |k: &Kid| -> i32 {
        let (_, mr, _, ml) = margins(&k.style);
        let inside = |w: i32| (w - ml - mr).max(0);
        let w = match &k.style.width {
            None => inside(av.width),
            Some(s) => match s.unit {
                Unit::Cells => s.value as i32 + chrome_x(&k.style),
                Unit::Auto => k.desired.width as i32,
                Unit::Fraction => inside(av.width),
                _ => inside(length(s, sp, av.width).round() as i32),
            },
        };
        limit(w, &k.style.max_width, &k.style.min_width, sp, av.width)
    };
    // height before min/max, None for a share of what is left
    let fixed = |k: &Kid| -> Result<f64, f64> {
        let (mt, _, mb, _) = margins(&k.style);
        match &k.style.height {
            Some(s) => match s.unit {
                Unit::Fraction => Err(s.value),
                Unit::Auto => Ok(k.height_for(width(k).clamp(0, 65535)) as f64),
                Unit::Cells => Ok((s.value as i32 + chrome_y(&k.style)) as f64),
                Unit::Percent | Unit::Height => Ok(part_of(s.value, av.height)),
                Unit::Width | Unit::ViewWidth => Ok(part_of(s.value, vp.width)),
                Unit::ViewHeight => Ok(part_of(s.value, vp.height)),
            }
            .map(|h| if matches!(s.unit, Unit::Percent | Unit::Height) { (h - (mt + mb) as f64).max(0.0) } else { h }),
            None if k.desired.height == FILL => Err(1.0),
            None => Ok(k.desired.height as f64),
        }
    };
    let mut used = 0.0;
    let mut shares = 0.0;
    let mut prev = 0;
    for (i, k) in kids.iter().enumerate() {
        let (mt, _, mb, _) = margins(&k.style);
        used += (gap(i, prev, mt) + mb) as f64;
        prev = mb;
        match fixed(k) {
            Ok(h) => used += h,
            Err(f) => shares += f,
        }
    }
    let left = av.height as f64 - used;
    let unit = if shares > 0.0 && left > 1e-9 { left / shares } else { 1.0 };
    let mut y = av.y as f64;
    let mut prev = 0;
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        let (mt, _, mb, ml) = margins(&k.style);
        let is_rel = matches!(&k.style.height, Some(s) if matches!(s.unit, Unit::Percent | Unit::Height));
        // limits apply to the box with its margins for percentages, to the box itself otherwise
        let mut h = match fixed(k) {
            Ok(_) if is_rel => part_of(k.style.height.as_ref().unwrap().value, av.height),
            Ok(h) => h,
            Err(f) => f * unit,
        };
        if let Some(m) = &k.style.max_height {
            h = h.min(raw_length(m, sp, av.height));
        }
        if let Some(m) = &k.style.min_height {
            h = h.max(raw_length(m, sp, av.height));
        }
        if is_rel {
            h = (h - (mt + mb) as f64).max(0.0);
        }
        y += gap(i, prev, mt) as f64;
        let (a, b) = (fl(y), fl(y + h));
        out.push((av.x + ml, a, width(k), (b - a).max(0)));
        y += h + mb as f64;
        prev = mb;
    }
    out
}

fn raw_length(s: &Scalar, sp: Space, own: i32) -> f64 {
    if matches!(s.unit, Unit::Cells | Unit::Fraction | Unit::Auto) { s.value } else { length(s, sp, own) }
}

pub fn model_horizontal(kids: &[&Kid], av: Region, vp: Viewport) -> Vec<Rect> {
    let sp = Space { w: av.width, h: av.height, vw: vp.width, vh: vp.height };
    let fixed = |k: &Kid| -> Result<f64, f64> {
        match &k.style.width {
            Some(s) if s.unit == Unit::Fraction => Err(s.value),
            Some(s) if s.unit != Unit::Auto => Ok(length(s, sp, av.width) + chrome_x(&k.style) as f64),
            _ if k.desired.width == FILL => Err(1.0),
            _ => Ok(k.desired.width as f64),
        }
    };
    let mut carry = 0.0;
    let mut used = 0;
    let mut shares = 0.0;
    let mut prev = 0;
    let mut widths: Vec<Option<i32>> = vec![];
    for (i, k) in kids.iter().enumerate() {
        let (_, mr, _, ml) = margins(&k.style);
        used += gap(i, prev, ml) + mr;
        prev = mr;
        widths.push(match fixed(k) {
            Ok(w) => {
                let raw = w + carry;
                let n = fl(raw);
                carry = (raw - n as f64).max(0.0);
                used += n;
                Some(n)
            }
            Err(f) => {
                shares += f;
                None
            }
        });
    }
    let left = (av.width - used).max(0);
    let mut fr: Vec<i32> = kids
        .iter()
        .map(|k| match fixed(k) {
            Err(f) if shares > 0.0 => fl(left as f64 * f / shares),
            _ => 0,
        })
        .collect();
    let mut over = left - fr.iter().sum::<i32>();
    for i in 0..kids.len() {
        if shares > 0.0 && widths[i].is_none() && over > 0 {
            fr[i] += 1;
            over -= 1;
        }
    }
    let mut x = av.x;
    let mut prev = 0;
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        let (mt, mr, mb, ml) = margins(&k.style);
        let w = limit(widths[i].unwrap_or(fr[i]), &k.style.max_width, &k.style.min_width, sp, av.width);
        let inside = |h: i32| (h - mt - mb).max(0);
        let h = match &k.style.height {
            None => inside(av.height),
            Some(s) => match s.unit {
                Unit::Auto => k.height_for(w.clamp(0, 65535)),
                Unit::Fraction => inside(av.height),
                Unit::Cells => length(s, sp, av.height) as i32 + chrome_y(&k.style),
                _ => inside(length(s, sp, av.height).trunc() as i32 + chrome_y(&k.style)),
            },
        };
        let h = limit(h, &k.style.max_height, &k.style.min_height, sp, av.height);
        x += gap(i, prev, ml);
        out.push((x, av.y + mt, w, h));
        x += w + mr;
        prev = mr;
    }
    out
}

/// (row, column, rows, columns) per placed child; children after the first that finds no room are dropped.
fn model_cells(kids: &[&Kid], cols: usize, rows: Option<usize>) -> (usize, Vec<(usize, usize, usize, usize)>) {
    let mut taken: HashSet<(usize, usize)> = HashSet::new();
    let mut at = 0usize; // reading-order position to try next
    let mut out = vec![];
    let mut used = 0;
    'kids: for k in kids {
        let (cs, rs) = (k.style.grid_placement.column_span.max(1) as usize, k.style.grid_placement.row_span.max(1) as usize);
        loop {
            let (r, c) = (at / cols, at % cols);
            if rows.is_some_and(|n| r >= n) {
                break 'kids;
            }
            let cs = cs.min(cols - c);
            let rs = rows.map_or(rs, |n| rs.min(n - r));
            let block: Vec<(usize, usize)> = (r..r + rs).flat_map(|y| (c..c + cs).map(move |x| (y, x))).collect();
            at += 1;
            if block.iter().all(|p| !taken.contains(p)) {
                taken.extend(block);
                used = used.max(r + rs);
                out.push((r, c, rs, cs));
                break;
            }
        }
    }
    (rows.unwrap_or(used.max(1)), out)
}

/// Start and size of each track.
fn model_tracks(specs: &[Scalar], n: usize, avail: i32, gutter: i32, content: Option<&[i32]>) -> Vec<(i32, i32)> {
    let room = avail - (n.max(1) as i32 - 1) * gutter;
    let sizes: Vec<i32> = if let Some(content) = content {
        let sum: i32 = content.iter().sum();
        if sum <= room { content.to_vec() } else { content.iter().map(|&c| ((c as i64 * room as i64) / sum.max(1) as i64) as i32).collect() }
    } else {
        let room = room.max(0);
        let spec = |i: usize| if specs.is_empty() { Scalar::fr(1.0) } else { specs[i % specs.len()] };
        let fixed: Vec<Option<i32>> = (0..n)
            .map(|i| match spec(i).unit {
                Unit::Fraction | Unit::Auto => None,
                Unit::Percent => Some(part_of(spec(i).value, room).trunc() as i32),
                _ => Some(spec(i).value as i32),
            })
            .collect();
        let rest = room - fixed.iter().flatten().sum::<i32>();
        let fr: f64 = (0..n).filter(|&i| spec(i).unit == Unit::Fraction).map(|i| spec(i).value).sum();
        let autos = (0..n).filter(|&i| spec(i).unit == Unit::Auto).count();
        let weight = |i: usize| match spec(i).unit {
            Unit::Fraction => spec(i).value,
            Unit::Auto if fr == 0.0 => 1.0,
            _ => 0.0,
        };
        let total = if fr > 0.0 { fr } else { autos as f64 };
        let mut seen = 0.0;
        (0..n)
            .map(|i| match fixed[i] {
                Some(v) => v,
                None if weight(i) == 0.0 => 0,
                None => {
                    // cumulative shares, rounded down: extra cells go to later tracks
                    let a = fl(rest as f64 * seen / total);
                    seen += weight(i);
                    fl(rest as f64 * seen / total) - a
                }
            })
            .collect()
    };
    let mut at = 0;
    sizes
        .into_iter()
        .map(|s| {
            let s = s.max(1);
            let t = (at, s);
            at += s + gutter;
            t
        })
        .collect()
}

pub struct GridModel {
    pub cols: Vec<(i32, i32)>,
    pub rows: Vec<(i32, i32)>,
    pub cells: Vec<(usize, usize, usize, usize)>,
}

pub fn model_grid_tracks(parent: &ComputedStyle, kids: &[&Kid], av: Region, min_col: Option<u16>) -> GridModel {
    let g = &parent.grid;
    let ncols = match min_col {
        Some(m) if m > 0 && av.width > 0 => (av.width / m as i32).max(1) as usize,
        _ => g.columns.unwrap_or(1) as usize,
    };
    let (nrows, cells) = model_cells(kids, ncols, g.rows.map(|r| r as usize));
    let gut = |s: &Scalar, basis: i32| if s.unit == Unit::Percent { part_of(s.value, basis).trunc() as i32 } else { s.value as i32 };
    let (gv, gh) = (gut(&g.gutter.0, av.height), gut(&g.gutter.1, av.width));
    let auto = |s: &Option<Scalar>| matches!(s, Some(s) if s.unit == Unit::Auto);
    let mut cc = vec![0; ncols];
    let mut rc = vec![0; nrows];
    for (k, &(r, c, rs, cs)) in kids.iter().zip(&cells) {
        if cs == 1 {
            cc[c] = cc[c].max(k.desired.width as i32);
        }
        if rs == 1 {
            rc[r] = rc[r].max(k.desired.height as i32);
        }
    }
    let cols = model_tracks(&g.column_widths, ncols, av.width, gh, (g.column_widths.is_empty() && auto(&parent.width)).then_some(&cc[..]));
    let rows = model_tracks(&g.row_heights, nrows, av.height, gv, (g.row_heights.is_empty() && auto(&parent.height)).then_some(&rc[..]));
    GridModel { cols, rows, cells }
}

pub fn model_grid(parent: &ComputedStyle, kids: &[&Kid], av: Region, min_col: Option<u16>) -> Vec<Rect> {
    let m = model_grid_tracks(parent, kids, av, min_col);
    kids.iter()
        .zip(&m.cells)
        .map(|(k, &(r, c, rs, cs))| {
            let (x, y) = (m.cols[c].0, m.rows[r].0);
            let cw = m.cols[c + cs - 1].0 + m.cols[c + cs - 1].1 - x;
            let ch = m.rows[r + rs - 1].0 + m.rows[r + rs - 1].1 - y;
            let w = match &k.style.width {
                None => cw,
                Some(s) => match s.unit {
                    Unit::Percent => part_of(s.value, cw).round() as i32,
                    Unit::Auto => k.desired.width as i32,
                    Unit::Fraction => cw,
                    _ => s.value as i32,
                },
            }
            .min(cw);
            let h = match &k.style.height {
                None => ch,
                Some(s) => match s.unit {
                    Unit::Auto => k.height_for(w),
                    Unit::Percent => part_of(s.value, ch).round() as i32,
                    Unit::Fraction => ch,
                    _ => s.value as i32,
                },
            };
            let (mt, mr, mb, ml) = margins(&k.style);
            (av.x + x + ml, av.y + y + mt, (w - ml - mr).max(0), (h - mt - mb).max(0))
        })
        .collect()
}

// ---------------------------------------------------------------- generators

fn pct(g: &mut G) -> f64 {
    *g.of(&[50.0, 100.0, 25.0, 33.0, 33.3, 10.0, 12.5, 66.0, 75.0, 80.0, 90.0, 150.0, 0.0, 5.0, 99.0])
}

fn scalar(g: &mut G, cells_max: i64, fr: bool, auto: bool) -> Scalar {
    let w = [6, 4, if fr { 6 } else { 0 }, if auto { 3 } else { 0 }, 1, 1, 1, 1];
    let v = pct(g);
    match g.weighted(&w) {
        0 => Scalar { value: g.int(0, cells_max) as f64, unit: Unit::Cells },
        1 => Scalar { value: v, unit: Unit::Percent },
        2 => Scalar { value: *g.of(&[1.0, 1.0, 2.0, 3.0, 0.5, 1.5, 5.0]), unit: Unit::Fraction },
        3 => Scalar { value: 0.0, unit: Unit::Auto },
        4 => Scalar { value: v, unit: Unit::Width },
        5 => Scalar { value: v, unit: Unit::Height },
        6 => Scalar { value: v, unit: Unit::ViewWidth },
        _ => Scalar { value: v, unit: Unit::ViewHeight },
    }
}

/// A size limit: every unit that has an extent, cells half of the time.
fn limit_scalar(g: &mut G, max: i64) -> Scalar {
    if g.bool() { Scalar { value: g.int(0, max) as f64, unit: Unit::Cells } } else { scalar(g, max, false, false) }
}

fn chrome_style(g: &mut G, s: &mut ComputedStyle) {
    if g.chance(1, 3) {
        s.box_sizing = BoxSizing::ContentBox;
    }
    if g.chance(1, 3) {
        for e in [&mut s.padding.top, &mut s.padding.right, &mut s.padding.bottom, &mut s.padding.left] {
            e.value = g.int(0, 3) as f64;
        }
    }
    if g.chance(1, 3) {
        for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] {
            e.kind = *g.of(&[BorderKind::Solid, BorderKind::None, BorderKind::Heavy, BorderKind::Hidden]);
        }
    }
}

fn margin_style(g: &mut G, s: &mut ComputedStyle) {
    if g.chance(2, 5) {
        for e in [&mut s.margin.top, &mut s.margin.right, &mut s.margin.bottom, &mut s.margin.left] {
            e.value = *g.of(&[0.0, 1.0, 2.0, 3.0, 0.0]);
        }
    }
}

pub fn kid(g: &mut G, main_is_y: bool) -> Kid {
    let mut s = ComputedStyle::default();
    if g.chance(3, 4) {
        s.width = Some(scalar(g, 30, true, true));
    }
    if g.chance(3, 4) {
        s.height = Some(scalar(g, 12, true, true));
    }
    if g.chance(1, 5) {
        s.max_width = Some(limit_scalar(g, 30));
    }
    if g.chance(1, 5) {
        s.min_width = Some(limit_scalar(g, 30));
    }
    if g.chance(1, 5) {
        s.max_height = Some(limit_scalar(g, 15));
    }
    if g.chance(1, 5) {
        s.min_height = Some(limit_scalar(g, 15));
    }
    chrome_style(g, &mut s);
    margin_style(g, &mut s);
    let mut desired = Size { width: g.u16(0, 30), height: g.u16(0, 10) };
    if g.chance(1, 6) {
        if main_is_y { desired.height = FILL } else { desired.width = FILL }
    }
    let text = if g.chance(1, 4) && desired.height != FILL { Some(g.u16(0, 90)) } else { None };
    Kid { style: s, desired, text }
}

pub fn region(g: &mut G) -> (Region, Viewport) {
    let r = Region { x: g.i32(-5, 20), y: g.i32(-5, 20), width: g.i32(0, 90), height: g.i32(0, 50) };
    let vp = if g.bool() { Viewport::from(r) } else { Viewport { width: r.width + g.i32(0, 60), height: r.height + g.i32(0, 30) } };
    (r, vp)
}

fn show(s: &Option<Scalar>) -> String {
    match s {
        None => "-".into(),
        Some(s) => format!("{}{:?}", s.value, s.unit),
    }
}
fn show_kid(k: &Kid) -> String {
    let s = &k.style;
    let (a, b, c, d) = margins(s);
    format!(
        "w={} h={} max=({},{}) min=({},{}) margin={a},{b},{c},{d} box={:?} chrome=({},{}) desired={}x{} text={:?} span={}x{} dock={:?} pos={:?} layer={:?} off=({},{})",
        show(&s.width), show(&s.height), show(&s.max_width), show(&s.max_height), show(&s.min_width), show(&s.min_height), s.box_sizing,
        chrome_x(s), chrome_y(s), k.desired.width, k.desired.height, k.text, s.grid_placement.column_span, s.grid_placement.row_span, s.dock,
        s.position, s.layer, show(&s.offset_x), show(&s.offset_y)
    )
}
fn note(g: &mut G, parent: &ComputedStyle, kids: &[Kid], av: Region, vp: Viewport) {
    g.note(|| {
        let mut t = format!("{:?} in {:?} viewport {}x{}", parent.layout, rect(&av), vp.width, vp.height);
        if parent.layout == Kind::Grid {
            t += &format!(" cols={:?} rows={:?} gutter={:?} widths={:?} heights={:?} parent w={} h={}", parent.grid.columns, parent.grid.rows, parent.grid.gutter, parent.grid.column_widths, parent.grid.row_heights, show(&parent.width), show(&parent.height));
        }
        t += &format!(" align={:?}/{:?} layers={:?}", parent.align_horizontal, parent.align_vertical, parent.layers);
        for k in kids {
            t += &format!("\n  {}", show_kid(k));
        }
        t
    });
}

/// Lay out with the real code; indices are made non-contiguous so that they cannot be confused with positions.
fn with_children<T>(kids: &[Kid], f: impl FnOnce(&[LayoutChild]) -> T) -> T {
    let nodes: Vec<Node> = kids.iter().map(|k| Node(k.clone())).collect();
    let ch: Vec<LayoutChild> = nodes
        .iter()
        .enumerate()
        .map(|(i, n)| LayoutChild { index: 3 * i + 1, style: n.0.style.clone(), desired_size: n.0.desired, node: n })
        .collect();
    f(&ch)
}
fn out(v: Vec<WidgetPlacement>) -> Vec<(usize, Rect)> {
    v.iter().map(|p| ((p.child_index - 1) / 3, rect(&p.region))).collect()
}

// ---------------------------------------------------------------- C13

fn stack(g: &mut G) -> R {
    AMBIGUOUS.with(|a| a.set(false));
    let vertical = g.bool();
    let mut parent = ComputedStyle::default();
    parent.layout = if vertical { Kind::Vertical } else { Kind::Horizontal };
    let kids = g.vec(0, 7, |g| kid(g, vertical));
    let (av, vp) = region(g);
    note(g, &parent, &kids, av, vp);
    let refs: Vec<&Kid> = kids.iter().collect();
    let want = if vertical { model_vertical(&refs, av, vp) } else { model_horizontal(&refs, av, vp) };
    let got = with_children(&kids, |c| out(arrange_children_with_viewport(&parent, c, av, vp)));
    let fr = kids.iter().filter(|k| { let s = if vertical { &k.style.height } else { &k.style.width }; matches!(s, Some(s) if s.unit == Unit::Fraction) }).count();
    g.nontrivial_if(kids.len() >= 2 && av.width > 0 && av.height > 0);
    g.label(if vertical { "vertical" } else { "horizontal" });
    g.label_if(fr >= 2, "two fr children");
    g.label_if(kids.iter().any(|k| margins(&k.style) != (0, 0, 0, 0)), "margins");
    if AMBIGUOUS.with(|a| a.get()) {
        g.label("percentage on a rounding edge (only order checked)");
        ensure_eq!(got.iter().map(|p| p.0).collect::<Vec<_>>(), (0..kids.len()).collect::<Vec<_>>(), "children placed");
        return Ok(());
    }
    let want: Vec<(usize, Rect)> = want.into_iter().enumerate().collect();
    ensure_eq!(got, want, "regions (x, y, width, height) per child");
    Ok(())
}

/// The guarantees themselves, without the model: order, adjacency, and exact filling by fr children.
fn fill(g: &mut G) -> R {
    let vertical = g.bool();
    let mut parent = ComputedStyle::default();
    parent.layout = if vertical { Kind::Vertical } else { Kind::Horizontal };
    let (av, vp) = region(g);
    let n = g.usize(1, 12);
    let mut kids = vec![];
    for _ in 0..n {
        let mut s = ComputedStyle::default();
        margin_style(g, &mut s);
        let l = if g.chance(3, 5) { Scalar { value: *g.of(&[1.0, 1.0, 2.0, 3.0, 1.5, 7.0]), unit: Unit::Fraction } } else { Scalar { value: g.int(0, 8) as f64, unit: Unit::Cells } };
        if vertical { s.height = Some(l) } else { s.width = Some(l) }
        kids.push(Kid { style: s, desired: Size { width: 5, height: 2 }, text: None });
    }
    note(g, &parent, &kids, av, vp);
    let got = with_children(&kids, |c| out(arrange_children_with_viewport(&parent, c, av, vp)));
    ensure_eq!(got.iter().map(|p| p.0).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "every child placed once, in order");
    let span = |r: Rect| if vertical { (r.1, r.3) } else { (r.0, r.2) };
    let before = |k: &Kid| { let m = margins(&k.style); if vertical { m.0 } else { m.3 } };
    let after = |k: &Kid| { let m = margins(&k.style); if vertical { m.2 } else { m.1 } };
    let (start, total) = if vertical { (av.y, av.height) } else { (av.x, av.width) };
    let mut fixed = 0;
    let mut shares = 0.0;
    let mut at = start;
    for i in 0..n {
        let g0 = if i == 0 { before(&kids[0]) } else { before(&kids[i]).max(after(&kids[i - 1])) };
        let (p, len) = span(got[i].1);
        ensure_eq!(p, at + g0, "child {i} starts after the larger of the two margins");
        at = p + len;
        fixed += g0;
        let l = if vertical { kids[i].style.height } else { kids[i].style.width }.unwrap();
        if l.unit == Unit::Cells {
            ensure_eq!(len, l.value as i32, "child {i} has the size given");
            fixed += len;
        } else {
            shares += l.value;
        }
    }
    fixed += after(&kids[n - 1]);
    let rest = total - fixed;
    g.nontrivial_if(shares > 1.0 && rest > 0);
    if shares > 0.0 && rest > 0 {
        g.label("fr fills");
        ensure_eq!(at + after(&kids[n - 1]), start + total, "fr children use up exactly the space that is left");
        for i in 0..n {
            let l = if vertical { kids[i].style.height } else { kids[i].style.width }.unwrap();
            if l.unit == Unit::Fraction {
                let ideal = rest as f64 * l.value / shares;
                let len = span(got[i].1).1;
                ensure!((len as f64 - ideal).abs() < 1.0 + 1e-6, "child {i} gets {len} cells, its share is {ideal:.3}");
            }
        }
    }
    Ok(())
}

fn fraction(g: &mut G) -> R {
    let num = |g: &mut G| g.int(-100_000, 100_000);
    let den = |g: &mut G| { let d = g.int(1, 2000); if g.chance(1, 4) { -d } else { d } };
    let (a, b, c, d) = (num(g), den(g), num(g), den(g));
    g.note(|| format!("{a}/{b} and {c}/{d}"));
    let (x, y) = (Fraction::new(a, b), Fraction::new(c, d));
    g.nontrivial_if(a % b != 0 && c % d != 0);
    let fl = |n: i64, d: i64| (n as i128 * d.signum() as i128).div_euclid((d.abs()) as i128) as i64;
    ensure_eq!(x.floor(), fl(a, b), "floor");
    for (name, r, n, dd) in [("+", x + y, a * d + c * b, b * d), ("-", x - y, a * d - c * b, b * d), ("*", x * y, a * c, b * d), ("mul_ratio", x.mul_ratio(c, d), a * c, b * d)] {
        ensure_eq!(r, Fraction::new(n, dd), "{name}");
        ensure_eq!(r.floor(), fl(n, dd), "floor after {name}");
        let f = r.fract();
        ensure_eq!(f.floor(), 0, "fract in [0,1) after {name}");
        ensure_eq!(f + Fraction::from(r.floor()), r, "floor + fract = value after {name}");
    }
    ensure_eq!(Fraction::new(a, 0), Fraction::ZERO, "zero denominator");
    Ok(())
}

pub const P13: Property = Property {
    id: "C13",
    rule: "two or more children in a non-empty region (fill: fr shares of more than one and space left)",
    assumptions: &["percentages that fall exactly on a cell boundary where double arithmetic may round either way are not compared", "margins are not negative"],
    parts: &[
        Part { name: "stack", quick: 2_000_000, thorough: 20_000_000, f: stack },
        Part { name: "fill", quick: 1_500_000, thorough: 15_000_000, f: fill },
        Part { name: "fraction", quick: 1_000_000, thorough: 10_000_000, f: fraction },
    ],
};

// ---------------------------------------------------------------- C14

fn track_spec(g: &mut G) -> Scalar {
    match g.weighted(&[5, 3, 2, 1]) {
        0 => Scalar { value: *g.of(&[1.0, 2.0, 1.5, 3.0]), unit: Unit::Fraction },
        1 => Scalar { value: g.int(0, 20) as f64, unit: Unit::Cells },
        2 => Scalar { value: pct(g), unit: Unit::Percent },
        _ => Scalar { value: 0.0, unit: Unit::Auto },
    }
}

pub fn grid_parent(g: &mut G) -> ComputedStyle {
    let mut p = ComputedStyle::default();
    p.layout = Kind::Grid;
    p.grid.columns = if g.chance(4, 5) { Some(g.u16(1, 5)) } else { None };
    p.grid.rows = if g.chance(1, 3) { Some(g.u16(1, 5)) } else { None };
    if g.chance(1, 2) {
        p.grid.column_widths = g.vec(1, 4, track_spec);
    }
    if g.chance(1, 2) {
        p.grid.row_heights = g.vec(1, 4, track_spec);
    }
    if g.chance(1, 2) {
        p.grid.gutter = (Scalar { value: g.int(0, 3) as f64, unit: Unit::Cells }, Scalar { value: g.int(0, 3) as f64, unit: Unit::Cells });
    }
    if g.chance(1, 4) {
        p.width = Some(Scalar { value: 0.0, unit: Unit::Auto });
    }
    if g.chance(1, 4) {
        p.height = Some(Scalar { value: 0.0, unit: Unit::Auto });
    }
    p
}

fn grid_kid(g: &mut G) -> Kid {
    let mut k = kid(g, true);
    k.desired.width = g.u16(0, 30);
    if k.desired.height == FILL {
        k.desired.height = 3;
    }
    for s in [&mut k.style.width, &mut k.style.height].into_iter().flatten() {
        if matches!(s.unit, Unit::Width | Unit::Height | Unit::ViewWidth | Unit::ViewHeight) {
            s.unit = Unit::Percent;
        }
    }
    if g.chance(1, 3) {
        k.style.grid_placement.column_span = g.u16(1, 4);
        k.style.grid_placement.row_span = g.u16(1, 3);
    }
    k
}

fn grid(g: &mut G) -> R {
    AMBIGUOUS.with(|a| a.set(false));
    let parent = grid_parent(g);
    let kids = g.vec(0, 10, grid_kid);
    let (av, vp) = region(g);
    let min_col = if g.chance(1, 5) { Some(g.u16(0, 30)) } else { None };
    note(g, &parent, &kids, av, vp);
    g.note(|| format!("minimum column width {min_col:?}"));
    let refs: Vec<&Kid> = kids.iter().collect();
    let want: Vec<(usize, Rect)> = if kids.is_empty() { vec![] } else { model_grid(&parent, &refs, av, min_col).into_iter().enumerate().collect() };
    let got = with_children(&kids, |c| match min_col {
        None => out(arrange_children_with_viewport(&parent, c, av, vp)),
        Some(m) => out(arrange_children_with_pre_layout(|l| { if let Some(gl) = l.as_grid_mut() { gl.min_column_width = Some(m) } }, &parent, c, av)),
    });
    g.nontrivial_if(kids.len() >= 3 && parent.grid.columns.unwrap_or(1) > 1);
    g.label_if(kids.iter().any(|k| k.style.grid_placement.column_span > 1), "spans");
    g.label_if(want.len() < kids.len(), "grid full");
    if AMBIGUOUS.with(|a| a.get()) {
        g.label("percentage on a rounding edge");
        ensure_eq!(got.iter().map(|p| p.0).collect::<Vec<_>>(), want.iter().map(|p| p.0).collect::<Vec<_>>(), "children placed");
        return Ok(());
    }
    ensure_eq!(got, want, "regions (x, y, width, height) per child");
    if !kids.is_empty() && min_col.is_none() {
        let m = model_grid_tracks(&parent, &refs, av, None);
        let info = with_children(&kids, |c| GridLayout::default().compute_track_info(&parent, c, av));
        ensure_eq!(info.col_positions[..m.cols.len()], m.cols.iter().map(|t| t.0).collect::<Vec<_>>()[..], "column starts reported for keylines");
        ensure_eq!(info.row_positions[..m.rows.len()], m.rows.iter().map(|t| t.0).collect::<Vec<_>>()[..], "row starts reported for keylines");
        let mut occ = vec![vec![None; m.cols.len()]; m.rows.len()];
        for (i, &(r, c, rs, cs)) in m.cells.iter().enumerate() {
            for row in occ.iter_mut().skip(r).take(rs) {
                for cell in row.iter_mut().skip(c).take(cs) {
                    *cell = Some(3 * i + 1);
                }
            }
        }
        ensure_eq!(info.cell_occupancy, occ, "which child holds each cell");
    }
    Ok(())
}

/// Model-free: with filling children and room for every track, the grid tiles the region.
fn tiling(g: &mut G) -> R {
    let cols = g.usize(1, 6);
    let n = g.usize(1, 14);
    let mut parent = ComputedStyle::default();
    parent.layout = Kind::Grid;
    parent.grid.columns = Some(cols as u16);
    let (gv, gh) = (g.i32(0, 2), g.i32(0, 2));
    parent.grid.gutter = (Scalar { value: gv as f64, unit: Unit::Cells }, Scalar { value: gh as f64, unit: Unit::Cells });
    let mut kids = vec![];
    for _ in 0..n {
        let mut s = ComputedStyle::default();
        if g.chance(1, 3) {
            s.grid_placement.column_span = g.u16(1, 4);
            s.grid_placement.row_span = g.u16(1, 3);
        }
        kids.push(Kid { style: s, desired: Size { width: 4, height: 2 }, text: None });
    }
    let av = Region { x: g.i32(-3, 9), y: g.i32(-3, 9), width: g.i32(40, 120), height: g.i32(90, 160) };
    note(g, &parent, &kids, av, av.into());
    let got = with_children(&kids, |c| out(arrange_children_with_viewport(&parent, c, av, av.into())));
    g.nontrivial_if(n > 2);
    ensure_eq!(got.len(), n, "children placed in a grid whose rows grow");
    for (i, (ci, r)) in got.iter().enumerate() {
        ensure_eq!(*ci, i, "order of placements");
        ensure!(r.2 >= 1 && r.3 >= 1 && r.0 >= av.x && r.1 >= av.y && r.0 + r.2 <= av.x + av.width && r.1 + r.3 <= av.y + av.height, "child {i} at {r:?} leaves the grid {:?}", rect(&av));
        for (j, (_, q)) in got[..i].iter().enumerate() {
            let over = r.0 < q.0 + q.2 + gh && q.0 < r.0 + r.2 + gh && r.1 < q.1 + q.3 + gv && q.1 < r.1 + r.3 + gv;
            ensure!(!over, "children {j} at {q:?} and {i} at {r:?} overlap or stand closer than the gutter");
            if r.1 == q.1 {
                ensure!(r.0 > q.0, "child {i} is left of child {j} in the same row");
            } else {
                ensure!(r.1 > q.1, "child {i} starts above child {j}");
            }
        }
    }
    if got.iter().all(|(i, _)| kids[*i].style.grid_placement.row_span == 1 && kids[*i].style.grid_placement.column_span == 1) && n % cols == 0 {
        g.label("plain full grid");
        let area: i32 = got.iter().map(|(_, r)| (r.2 + gh) * (r.3 + gv)).sum();
        ensure_eq!(area, (av.width + gh) * (av.height + gv), "cells and gutters cover the whole region");
        let (a, b) = (got.iter().map(|p| p.1.2).min(), got.iter().map(|p| p.1.2).max());
        ensure!(b.unwrap() - a.unwrap() <= 1, "equal columns differ by more than one cell");
    }
    Ok(())
}

pub const P14: Property = Property {
    id: "C14",
    rule: "three or more children in more than one column",
    assumptions: &["percentages on a cell boundary where double arithmetic may round either way are not compared", "explicit child sizes in cells, percent, fr or auto"],
    parts: &[
        Part { name: "grid", quick: 2_000_000, thorough: 20_000_000, f: grid },
        Part { name: "tiling", quick: 1_000_000, thorough: 10_000_000, f: tiling },
    ],
};

// ---------------------------------------------------------------- C15

fn offset_cells(s: &Option<Scalar>, own: i32, w: i32, h: i32, vp: Viewport) -> i32 {
    match s {
        None => 0,
        Some(s) => match s.unit {
            Unit::Percent => part_of(s.value, own).trunc() as i32,
            Unit::Width => part_of(s.value, w).trunc() as i32,
            Unit::Height => part_of(s.value, h).trunc() as i32,
            Unit::ViewWidth => part_of(s.value, vp.width).trunc() as i32,
            Unit::ViewHeight => part_of(s.value, vp.height).trunc() as i32,
            _ => s.value as i32,
        },
    }
}

/// The size of a child that is not part of the flow, from its own style and content.
fn own_size(k: &Kid, content: Region, vp: Viewport) -> (i32, i32) {
    let sp = Space { w: content.width, h: content.height, vw: vp.width, vh: vp.height };
    let own_w = if k.desired.width == FILL { content.width.clamp(0, 65535) } else { k.desired.width as i32 };
    let w = match &k.style.width {
        None => own_w,
        Some(s) => chrome_x(&k.style) + match s.unit {
            Unit::Auto => own_w,
            Unit::Fraction => content.width,
            _ => length(s, sp, content.width).round() as i32,
        },
    };
    let w = limit(w, &k.style.max_width, &k.style.min_width, sp, content.width);
    let h = match &k.style.height {
        None => k.height_for(w.clamp(0, 65535)),
        Some(s) => chrome_y(&k.style) + match s.unit {
            Unit::Auto => k.height_for(w.clamp(0, 65535)),
            Unit::Fraction => content.height,
            _ => length(s, sp, content.height).round() as i32,
        },
    };
    let h = limit(h, &k.style.max_height, &k.style.min_height, sp, content.height);
    (w.max(0), h.max(0))
}

fn model_page_layer(parent: &ComputedStyle, kids: &[(usize, &Kid)], av: Region, vp: Viewport) -> Vec<(usize, Rect)> {
    let (mut t, mut r, mut b, mut l) = (0, 0, 0, 0);
    let mut outp = vec![];
    for (i, k) in kids {
        let (w, h) = own_size(k, av, vp);
        let rc = match k.style.dock {
            None => continue,
            Some(Dock::Top) => { t = t.max(h); (av.x, av.y, av.width, h) }
            Some(Dock::Bottom) => { b = b.max(h); (av.x, av.y + av.height - h, av.width, h) }
            Some(Dock::Left) => { l = l.max(w); (av.x, av.y, w, av.height) }
            Some(Dock::Right) => { r = r.max(w); (av.x + av.width - w, av.y, w, av.height) }
        };
        outp.push((*i, rc));
    }
    let content = Region { x: av.x + l, y: av.y + t, width: (av.width - l - r).max(0), height: (av.height - t - b).max(0) };
    let flow: Vec<(usize, &Kid)> = kids.iter().filter(|(_, k)| k.style.dock.is_none() && k.style.position != Position::Absolute).copied().collect();
    let refs: Vec<&Kid> = flow.iter().map(|p| p.1).collect();
    let mut rects = match parent.layout {
        Kind::Vertical => model_vertical(&refs, content, vp),
        Kind::Horizontal => model_horizontal(&refs, content, vp),
        Kind::Grid => if refs.is_empty() { vec![] } else { model_grid(parent, &refs, content, None) },
    };
    if !rects.is_empty() {
        // the block of all children with their margins is aligned as one
        let ext = |f: &dyn Fn(&Rect, (i32, i32, i32, i32)) -> (i32, i32)| {
            let v: Vec<(i32, i32)> = rects.iter().zip(&refs).map(|(rc, k)| f(rc, margins(&k.style))).collect();
            v.iter().map(|p| p.1).max().unwrap() - v.iter().map(|p| p.0).min().unwrap()
        };
        let bw = ext(&|rc, m| (rc.0 - m.3, rc.0 + rc.2 + m.1));
        let bh = ext(&|rc, m| (rc.1 - m.0, rc.1 + rc.3 + m.2));
        let dx = match parent.align_horizontal {
            AlignHorizontal::Left => 0,
            AlignHorizontal::Center => (content.width - bw).max(0) / 2,
            AlignHorizontal::Right => (content.width - bw).max(0),
        };
        let dy = match parent.align_vertical {
            AlignVertical::Top => 0,
            AlignVertical::Middle => (content.height - bh).max(0) / 2,
            AlignVertical::Bottom => (content.height - bh).max(0),
        };
        for rc in &mut rects {
            rc.0 += dx;
            rc.1 += dy;
        }
    }
    outp.extend(flow.iter().map(|p| p.0).zip(rects));
    for (i, k) in kids.iter().filter(|(_, k)| k.style.dock.is_none() && k.style.position == Position::Absolute) {
        let (w, h) = own_size(k, content, vp);
        outp.push((*i, (content.x, content.y, w, h)));
    }
    for (i, rc) in &mut outp {
        let k = kids.iter().find(|p| p.0 == *i).unwrap().1;
        let (w, h) = (rc.2, rc.3);
        rc.0 += offset_cells(&k.style.offset_x, w, w, h, vp);
        rc.1 += offset_cells(&k.style.offset_y, h, w, h, vp);
    }
    outp
}

fn page_kid(g: &mut G, kind: Kind) -> Kid {
    let mut k = if kind == Kind::Grid { grid_kid(g) } else { kid(g, kind == Kind::Vertical) };
    match g.weighted(&[5, 2, 1]) {
        0 => {}
        1 => {
            k.style.dock = Some(*g.of(&[Dock::Top, Dock::Bottom, Dock::Left, Dock::Right]));
            if k.desired.height == FILL {
                k.desired.height = 4;
            }
        }
        _ => {
            k.style.position = Position::Absolute;
            if k.desired.height == FILL {
                k.desired.height = 4;
            }
        }
    }
    if g.chance(1, 4) {
        k.style.layer = Some(g.pick(&["default", "top", "mid", "ghost"]).to_string());
    }
    if g.chance(1, 5) {
        let mk = |g: &mut G| {
            let u = *g.of(&[Unit::Cells, Unit::Percent, Unit::ViewWidth, Unit::ViewHeight, Unit::Width, Unit::Height]);
            let v = if u == Unit::Cells { g.int(-10, 10) as f64 } else { pct(g) * if g.bool() { -1.0 } else { 1.0 } };
            Scalar { value: v, unit: u }
        };
        k.style.offset_x = Some(mk(g));
        if g.bool() {
            k.style.offset_y = Some(mk(g));
        }
    }
    k
}

fn page_parent(g: &mut G) -> ComputedStyle {
    let mut p = match g.weighted(&[2, 2, 1]) {
        0 => ComputedStyle { layout: Kind::Vertical, ..Default::default() },
        1 => ComputedStyle { layout: Kind::Horizontal, ..Default::default() },
        _ => grid_parent(g),
    };
    p.align_horizontal = *g.of(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    p.align_vertical = *g.of(&[AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom]);
    if g.chance(1, 3) {
        let mut names = vec!["mid", "top", "default"];
        g.shuffle(&mut names);
        let n = g.usize(1, 3);
        p.layers = Some(names[..n].iter().map(|s| s.to_string()).collect());
    }
    p
}

fn page(g: &mut G) -> R {
    AMBIGUOUS.with(|a| a.set(false));
    let parent = page_parent(g);
    let kids = g.vec(0, 8, |g| page_kid(g, parent.layout));
    let (av, vp) = region(g);
    note(g, &parent, &kids, av, vp);
    let order = parent.layers.clone().unwrap_or_else(|| vec!["default".into()]);
    // layers from bottom to top: those not listed first, in order of appearance, then the listed ones
    let name = |k: &Kid| k.style.layer.clone().unwrap_or_else(|| "default".into());
    let mut names: Vec<String> = vec![];
    for k in &kids {
        let n = name(k);
        if !order.contains(&n) && !names.contains(&n) {
            names.push(n);
        }
    }
    let unlisted = names.len();
    names.extend(order.iter().cloned());
    let layers: Vec<Vec<(usize, Rect)>> = names
        .iter()
        .map(|n| {
            let sub: Vec<(usize, &Kid)> = kids.iter().enumerate().filter(|(_, k)| name(k) == *n).collect();
            model_page_layer(&parent, &sub, av, vp)
        })
        .collect();
    let got = with_children(&kids, |c| out(arrange_children_with_layers(&parent, c, av, vp)));
    g.nontrivial_if(kids.len() >= 2 && kids.iter().any(|k| k.style.dock.is_some() || k.style.position == Position::Absolute || k.style.layer.is_some() || k.style.offset_x.is_some()));
    g.label_if(kids.iter().any(|k| k.style.dock.is_some()), "docked");
    g.label_if(kids.iter().any(|k| k.style.position == Position::Absolute && k.style.dock.is_none()), "absolute");
    g.label_if(names.len() > 1, "several layers");
    g.label_if(unlisted > 1, "several unlisted layers");
    let want: Vec<(usize, Rect)> = layers.into_iter().flatten().collect();
    if AMBIGUOUS.with(|a| a.get()) {
        g.label("percentage on a rounding edge");
        ensure_eq!(got.iter().map(|p| p.0).collect::<Vec<_>>(), want.iter().map(|p| p.0).collect::<Vec<_>>(), "children placed, bottom to top");
        return Ok(());
    }
    ensure_eq!(got, want, "regions (x, y, width, height) per child, bottom to top");
    Ok(())
}

/// Model-free independence: what is out of the flow does not move what is in it.
fn independence(g: &mut G) -> R {
    let parent = page_parent(g);
    let mut kids = g.vec(1, 7, |g| page_kid(g, parent.layout));
    let (av, vp) = region(g);
    let victim = g.usize(0, kids.len() - 1);
    let what = g.usize(0, 2);
    let before_kids = kids.clone();
    match what {
        0 => {
            let k = &mut kids[victim];
            k.style.offset_x = Some(Scalar { value: g.int(-20, 20) as f64, unit: Unit::Cells });
            k.style.offset_y = Some(Scalar { value: g.int(-20, 20) as f64, unit: Unit::Cells });
        }
        1 => {
            kids[victim].style.position = Position::Absolute;
            kids[victim].style.dock = None;
        }
        _ => {
            kids[victim].style.layer = Some("elsewhere".into());
        }
    }
    note(g, &parent, &before_kids, av, vp);
    g.note(|| format!("child {victim}: {}", ["offset changed", "made absolute", "moved to a layer of its own"][what]));
    let run = |kids: &[Kid]| with_children(kids, |c| out(arrange_children_with_layers(&parent, c, av, vp)));
    let after = run(&kids);
    let find = |v: &[(usize, Rect)], i: usize| v.iter().find(|p| p.0 == i).map(|p| p.1);
    g.nontrivial_if(kids.len() >= 3);
    // the others must be where they are without the changed child (with it, when only its offset changed)
    let base = if what == 0 { run(&before_kids) } else {
        let rest: Vec<Kid> = kids.iter().enumerate().filter(|(i, _)| *i != victim).map(|p| p.1.clone()).collect();
        run(&rest).into_iter().map(|(i, r)| (if i >= victim { i + 1 } else { i }, r)).collect()
    };
    for i in (0..kids.len()).filter(|i| *i != victim) {
        ensure_eq!(find(&after, i), find(&base, i), "child {i} (not the changed one)");
    }
    if what == 0 {
        let (a, b) = (find(&after, victim), find(&base, victim));
        ensure_eq!(a.map(|r| (r.2, r.3)), b.map(|r| (r.2, r.3)), "an offset does not change the size");
    }
    let again = run(&kids);
    ensure_eq!(again, after, "the same input laid out twice");
    Ok(())
}

pub const P15: Property = Property {
    id: "C15",
    rule: "two or more children, one of them docked, absolute, offset or on a named layer (independence: three or more children)",
    assumptions: &["percentages on a cell boundary where double arithmetic may round either way are not compared"],
    parts: &[
        Part { name: "page", quick: 1_600_000, thorough: 16_000_000, f: page },
        Part { name: "independence", quick: 800_000, thorough: 8_000_000, f: independence },
    ],
};
