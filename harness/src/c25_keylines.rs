//! C25: keylines. Lines are sets of unit edges between neighbouring cells; a cell's character has to be the one whose
//! arms are the edges that meet there.
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use std::collections::VecDeque;
use tcss::types::{ComputedStyle, RgbaColor, Theme};
use tcss::{WidgetMeta, WidgetStates};
use textual::box_drawing::{Quad, combine_quads, get_box_char, widget_edge_quad};
use textual::keyline_canvas::KeylineCanvas;
use textual::style_resolver::resolve_styles;
use textual::{Canvas, Container, Grid, Horizontal, KeyCode, MouseEvent, Region, Size, Vertical, Widget};

/// The box drawing characters and their arms (up, right, down, left; 1 light, 2 heavy, 3 double), from their names.
const BOX: &[(char, Quad)] = &[
    ('─', (0, 1, 0, 1)),
    ('━', (0, 2, 0, 2)),
    ('│', (1, 0, 1, 0)),
    ('┃', (2, 0, 2, 0)),
    ('┌', (0, 1, 1, 0)),
    ('┍', (0, 2, 1, 0)),
    ('┎', (0, 1, 2, 0)),
    ('┏', (0, 2, 2, 0)),
    ('┐', (0, 0, 1, 1)),
    ('┑', (0, 0, 1, 2)),
    ('┒', (0, 0, 2, 1)),
    ('┓', (0, 0, 2, 2)),
    ('└', (1, 1, 0, 0)),
    ('┕', (1, 2, 0, 0)),
    ('┖', (2, 1, 0, 0)),
    ('┗', (2, 2, 0, 0)),
    ('┘', (1, 0, 0, 1)),
    ('┙', (1, 0, 0, 2)),
    ('┚', (2, 0, 0, 1)),
    ('┛', (2, 0, 0, 2)),
    ('├', (1, 1, 1, 0)),
    ('┝', (1, 2, 1, 0)),
    ('┞', (2, 1, 1, 0)),
    ('┟', (1, 1, 2, 0)),
    ('┠', (2, 1, 2, 0)),
    ('┡', (2, 2, 1, 0)),
    ('┢', (1, 2, 2, 0)),
    ('┣', (2, 2, 2, 0)),
    ('┤', (1, 0, 1, 1)),
    ('┥', (1, 0, 1, 2)),
    ('┦', (2, 0, 1, 1)),
    ('┧', (1, 0, 2, 1)),
    ('┨', (2, 0, 2, 1)),
    ('┩', (2, 0, 1, 2)),
    ('┪', (1, 0, 2, 2)),
    ('┫', (2, 0, 2, 2)),
    ('┬', (0, 1, 1, 1)),
    ('┭', (0, 1, 1, 2)),
    ('┮', (0, 2, 1, 1)),
    ('┯', (0, 2, 1, 2)),
    ('┰', (0, 1, 2, 1)),
    ('┱', (0, 1, 2, 2)),
    ('┲', (0, 2, 2, 1)),
    ('┳', (0, 2, 2, 2)),
    ('┴', (1, 1, 0, 1)),
    ('┵', (1, 1, 0, 2)),
    ('┶', (1, 2, 0, 1)),
    ('┷', (1, 2, 0, 2)),
    ('┸', (2, 1, 0, 1)),
    ('┹', (2, 1, 0, 2)),
    ('┺', (2, 2, 0, 1)),
    ('┻', (2, 2, 0, 2)),
    ('┼', (1, 1, 1, 1)),
    ('┽', (1, 1, 1, 2)),
    ('┾', (1, 2, 1, 1)),
    ('┿', (1, 2, 1, 2)),
    ('╀', (2, 1, 1, 1)),
    ('╁', (1, 1, 2, 1)),
    ('╂', (2, 1, 2, 1)),
    ('╃', (2, 1, 1, 2)),
    ('╄', (2, 2, 1, 1)),
    ('╅', (1, 1, 2, 2)),
    ('╆', (1, 2, 2, 1)),
    ('╇', (2, 2, 1, 2)),
    ('╈', (1, 2, 2, 2)),
    ('╉', (2, 1, 2, 2)),
    ('╊', (2, 2, 2, 1)),
    ('╋', (2, 2, 2, 2)),
    ('═', (0, 3, 0, 3)),
    ('║', (3, 0, 3, 0)),
    ('╒', (0, 3, 1, 0)),
    ('╓', (0, 1, 3, 0)),
    ('╔', (0, 3, 3, 0)),
    ('╕', (0, 0, 1, 3)),
    ('╖', (0, 0, 3, 1)),
    ('╗', (0, 0, 3, 3)),
    ('╘', (1, 3, 0, 0)),
    ('╙', (3, 1, 0, 0)),
    ('╚', (3, 3, 0, 0)),
    ('╛', (1, 0, 0, 3)),
    ('╜', (3, 0, 0, 1)),
    ('╝', (3, 0, 0, 3)),
    ('╞', (1, 3, 1, 0)),
    ('╟', (3, 1, 3, 0)),
    ('╠', (3, 3, 3, 0)),
    ('╡', (1, 0, 1, 3)),
    ('╢', (3, 0, 3, 1)),
    ('╣', (3, 0, 3, 3)),
    ('╤', (0, 3, 1, 3)),
    ('╥', (0, 1, 3, 1)),
    ('╦', (0, 3, 3, 3)),
    ('╧', (1, 3, 0, 3)),
    ('╨', (3, 1, 0, 1)),
    ('╩', (3, 3, 0, 3)),
    ('╪', (1, 3, 1, 3)),
    ('╫', (3, 1, 3, 1)),
    ('╬', (3, 3, 3, 3)),
    ('╴', (0, 0, 0, 1)),
    ('╵', (1, 0, 0, 0)),
    ('╶', (0, 1, 0, 0)),
    ('╷', (0, 0, 1, 0)),
    ('╸', (0, 0, 0, 2)),
    ('╹', (2, 0, 0, 0)),
    ('╺', (0, 2, 0, 0)),
    ('╻', (0, 0, 2, 0)),
    ('╼', (0, 2, 0, 1)),
    ('╽', (1, 0, 2, 0)),
    ('╾', (0, 1, 0, 2)),
    ('╿', (2, 0, 1, 0)),
];

fn arms(c: char) -> Option<Quad> {
    BOX.iter().find(|b| b.0 == c).map(|b| b.1)
}

fn chars(g: &mut G) -> R {
    let mut q = || -> Quad { (g.below(4) as u8, g.below(4) as u8, g.below(4) as u8, g.below(4) as u8) };
    let (a, b) = (q(), q());
    g.key(&(a, b));
    g.note(|| format!("{a:?} {b:?}"));
    let got = get_box_char(a);
    let want = BOX.iter().find(|b| b.1 == a).map(|b| b.0);
    let kinds: Vec<u8> = [a.0, a.1, a.2, a.3].into_iter().filter(|k| *k > 0).collect();
    let uniform = !kinds.is_empty() && kinds.iter().all(|k| *k == kinds[0]);
    g.nontrivial_if(kinds.len() > 1);
    match got {
        Some(c) => ensure_eq!(arms(c), Some(a), "the arms of {c:?}, given for {a:?}"),
        None => ensure!(!uniform || want.is_none(), "no character for {a:?}, {want:?} exists"),
    }
    let m = (a.0.max(b.0), a.1.max(b.1), a.2.max(b.2), a.3.max(b.3));
    ensure_eq!(combine_quads(a, b), m, "the stronger line of each pair");
    let (rows, cols) = (g.usize(1, 5), g.usize(1, 5));
    let (r, c) = (g.usize(0, rows - 1), g.usize(0, cols - 1));
    let l = g.usize(1, 3) as u8;
    let on = |b: bool| if b { l } else { 0 };
    ensure_eq!(widget_edge_quad(r, c, rows, cols, l), (on(r == 0), on(c == cols - 1), on(r == rows - 1), on(c == 0)), "edges of cell {r},{c} of {rows}x{cols}");
    Ok(())
}

/// A picture made of unit edges, arms per cell.
struct Lines {
    w: i32,
    h: i32,
    at: Vec<[bool; 4]>,
}

impl Lines {
    fn new(w: i32, h: i32) -> Self {
        Lines { w, h, at: vec![[false; 4]; (w * h) as usize] }
    }
    fn arm(&mut self, x: i32, y: i32, d: usize) {
        if x >= 0 && y >= 0 && x < self.w && y < self.h {
            self.at[(y * self.w + x) as usize][d] = true;
        }
    }
    /// a straight line from one cell to another
    fn line(&mut self, x0: i32, y0: i32, x1: i32, y1: i32) {
        for x in x0..x1 {
            self.arm(x, y0, 1);
            self.arm(x + 1, y0, 3);
        }
        for y in y0..y1 {
            self.arm(x0, y, 2);
            self.arm(x0, y + 1, 0);
        }
    }
    fn rect(&mut self, x0: i32, y0: i32, x1: i32, y1: i32) {
        self.line(x0, y0, x1, y0);
        self.line(x0, y1, x1, y1);
        self.line(x0, y0, x0, y1);
        self.line(x1, y0, x1, y1);
    }
}

fn positions(g: &mut G, size: usize, n: usize) -> Vec<usize> {
    let mut p = vec![g.usize(0, 2)];
    for _ in 0..n {
        p.push(p.last().unwrap() + 1 + g.usize(0, 1 + 2 * size / (n + 1)));
    }
    p
}

fn canvas(g: &mut G) -> R {
    let (w, h) = (g.usize(1, 30), g.usize(1, 16));
    let lt = g.usize(1, 3) as u8;
    let color = RgbaColor::rgb(10, 200, 30);
    let mut k = KeylineCanvas::new(w, h, lt, color.clone());
    let mut m = Lines::new(w as i32, h as i32);
    let n = g.usize(0, 4);
    for _ in 0..n {
        match g.weighted(&[3, 2, 3]) {
            0 => {
                let (x, y, bw, bh) = (g.usize(0, w), g.usize(0, h), g.usize(2, w + 3), g.usize(2, h + 3));
                g.note(|| format!("box {x},{y} {bw}x{bh}"));
                k.add_widget_box(x, y, bw, bh);
                m.rect(x as i32, y as i32, (x + bw - 1) as i32, (y + bh - 1) as i32);
            }
            1 => {
                let (c, r) = (g.usize(1, 4), g.usize(1, 4));
                let (cols, rows) = (positions(g, w, c), positions(g, h, r));
                g.note(|| format!("grid {cols:?} {rows:?}"));
                k.add_grid(&cols, &rows);
                for &x in &cols {
                    m.line(x as i32, rows[0] as i32, x as i32, rows[r] as i32);
                }
                for &y in &rows {
                    m.line(cols[0] as i32, y as i32, cols[c] as i32, y as i32);
                }
            }
            _ => {
                let (c, r) = (g.usize(1, 4), g.usize(1, 4));
                let (cols, rows) = (positions(g, w, c), positions(g, h, r));
                let occ: Vec<Vec<Option<usize>>> = (0..r).map(|_| (0..c).map(|_| g.chance(3, 4).then(|| g.usize(0, 3))).collect()).collect();
                g.note(|| format!("grid {cols:?} {rows:?} {occ:?}"));
                k.add_grid_with_occupancy(&cols, &rows, &occ);
                m.rect(cols[0] as i32, rows[0] as i32, cols[c] as i32, rows[r] as i32);
                for i in 0..r {
                    for j in 0..c {
                        if j > 0 && occ[i][j - 1] != occ[i][j] {
                            m.line(cols[j] as i32, rows[i] as i32, cols[j] as i32, rows[i + 1] as i32);
                        }
                        if i > 0 && occ[i - 1][j] != occ[i][j] {
                            m.line(cols[j] as i32, rows[i] as i32, cols[j + 1] as i32, rows[i] as i32);
                        }
                    }
                }
            }
        }
    }
    let (ox, oy) = (g.i32(-3, 3), g.i32(-3, 3));
    g.note(|| format!("{w}x{h} line type {lt} drawn at {ox},{oy}"));
    let (cw, ch) = (w as u16 + 4, h as u16 + 4);
    let mut c = Canvas::new(cw, ch);
    let paper = RgbaColor::rgb(1, 2, 3);
    for y in 0..ch {
        for x in 0..cw {
            c.put_char(x as i32, y as i32, '.', None, Some(paper.clone()), Default::default());
        }
    }
    k.render(&mut c, Region { x: ox, y: oy, width: w as i32, height: h as i32 });
    let cells = canvas_cells(&c);
    let mut lines = 0;
    for y in 0..ch as i32 {
        for x in 0..cw as i32 {
            let cell = &cells[(y * cw as i32 + x) as usize];
            let (mx, my) = (x - ox, y - oy);
            let a = if mx >= 0 && my >= 0 && mx < w as i32 && my < h as i32 { m.at[(my * w as i32 + mx) as usize] } else { [false; 4] };
            let q = a.map(|b| if b { lt } else { 0 });
            let want = BOX.iter().find(|b| b.1 == (q[0], q[1], q[2], q[3])).map(|b| b.0).unwrap_or('.');
            let want = if a == [false; 4] { '.' } else { want };
            lines += (want != '.') as usize;
            ensure_eq!(cell.glyph, Glyph::Lead(want.to_string()), "cell {x},{y} with the lines {a:?} (up right down left)");
            ensure_eq!(cell.fg, if want == '.' { None } else { Some((10, 200, 30)) }, "colour of {want:?} at {x},{y}");
            ensure_eq!(cell.bg, Some((1, 2, 3)), "background at {x},{y}");
        }
    }
    g.key(&(w, h, n, lines));
    g.nontrivial_if(lines > 0);
    Ok(())
}

/// A child that fills whatever region it is given with its letter.
struct Fill {
    n: usize,
    style: ComputedStyle,
    classes: Vec<String>,
}

impl Widget<u32> for Fill {
    fn render(&self, c: &mut Canvas, r: Region) {
        for y in 0..r.height {
            for x in 0..r.width {
                c.put_char(r.x + x, r.y + y, (b'a' + self.n as u8) as char, Some(RgbaColor::rgb(9, 9, 9)), None, Default::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        Size::new(3, 1)
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Fill", type_names: vec!["Fill", "Widget"], id: None, classes: self.classes.clone(), states: WidgetStates::empty() }
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn on_event(&mut self, _: KeyCode) -> Option<u32> {
        None
    }
    fn on_mouse(&mut self, _: MouseEvent, _: Region) -> Option<u32> {
        None
    }
    fn is_dirty(&self) -> bool {
        true
    }
    fn mark_dirty(&mut self) {}
    fn mark_clean(&mut self) {}
}

fn fill(n: usize, class: &str) -> Box<dyn Widget<u32>> {
    Box::new(Fill { n, style: Default::default(), classes: vec![class.into()] })
}

thread_local! {
    static THEME: Theme = Theme::standard_themes()["textual-dark"].clone();
}

fn picture(root: &mut dyn Widget<u32>, css: &str, w: u16, h: u16, r: Region) -> Result<Vec<MCell>, crate::engine::Fail> {
    let sheet = match tcss::parser::parse_stylesheet(css) {
        Ok(s) => s,
        Err(e) => fail!("the style sheet is rejected: {e:?}\n{css}"),
    };
    THEME.with(|t| resolve_styles(root, &sheet, t, &mut VecDeque::new()));
    root.on_resize(Size::new(w, h));
    let mut c = Canvas::new(w, h);
    root.render(&mut c, r);
    Ok(canvas_cells(&c))
}

fn show(cells: &[MCell], w: usize) -> String {
    cells.chunks(w).map(|r| r.iter().map(|c| match &c.glyph { Glyph::Lead(s) => s.as_str(), Glyph::Cont => "" }).collect::<String>()).collect::<Vec<_>>().join("\n")
}

fn containers(g: &mut G) -> R {
    let lt = g.usize(1, 3) as u8;
    let name = ["thin", "heavy", "double"][lt as usize - 1];
    let kind = g.usize(0, 4);
    let (w, h) = (40u16, 28u16);
    let gutter = (g.usize(1, 3), g.usize(1, 3));
    let (mut css, mut kids): (String, Vec<Box<dyn Widget<u32>>>) = (String::new(), vec![]);
    // every child's cells in the grid
    let mut spans: Vec<(usize, usize, usize, usize)> = vec![];
    let (mut cols, mut rows) = (1, 1);
    match kind {
        0 | 1 => {
            cols = g.usize(1, 4);
            rows = g.usize(1, 4);
            let mut taken = vec![vec![false; cols]; rows];
            'all: for n in 0..g.usize(1, cols * rows) {
                // the next free cell takes the child, if its span fits there
                for r in 0..rows {
                    for c in 0..cols {
                        if taken[r][c] {
                            continue;
                        }
                        let mut cs = 1;
                        let mut rs = 1;
                        if g.chance(1, 3) {
                            cs = g.usize(1, cols - c);
                            rs = g.usize(1, rows - r);
                        }
                        if (r..r + rs).any(|y| (c..c + cs).any(|x| taken[y][x])) {
                            cs = 1;
                            rs = 1;
                        }
                        for y in r..r + rs {
                            for x in c..c + cs {
                                taken[y][x] = true;
                            }
                        }
                        css.push_str(&format!(".k{n} {{ column-span: {cs}; row-span: {rs}; width: 1fr; height: 1fr; }}\n"));
                        kids.push(fill(n, &format!("k{n}")));
                        spans.push((r, c, rs, cs));
                        continue 'all;
                    }
                }
            }
            css.push_str(&format!("Grid {{ grid-size: {cols} {rows}; grid-gutter: {} {}; keyline: {name} #0ac81e; }}\n", gutter.0, gutter.1));
        }
        _ => {
            for n in 0..g.usize(1, 4) {
                let (cw, ch) = (g.usize(1, 6), g.usize(1, 3));
                let m = g.usize(1, 2);
                if kind == 2 || kind == 4 {
                    css.push_str(&format!(".k{n} {{ width: {cw}; height: 1fr; margin: {m}; }}\n"));
                } else {
                    css.push_str(&format!(".k{n} {{ width: 1fr; height: {ch}; margin: {m}; }}\n"));
                }
                kids.push(fill(n, &format!("k{n}")));
            }
            css.push_str(&format!("Horizontal, Vertical, Container {{ keyline: {name} #0ac81e; }}\nContainer {{ layout: horizontal; }}\n"));
        }
    }
    let count = kids.len();
    let mut root: Box<dyn Widget<u32>> = match kind {
        0 | 1 => Box::new(Grid::new(kids)),
        2 => Box::new(Horizontal::new(kids)),
        3 => Box::new(Vertical::new(kids)),
        _ => Box::new(Container::new(kids)),
    };
    css = format!("{}\n{css}", root.default_css());
    let r = Region { x: g.i32(0, 3), y: g.i32(0, 3), width: g.i32(34, 36), height: g.i32(22, 24) };
    g.note(|| format!("{css}in {r:?}"));
    let cells = picture(root.as_mut(), &css, w, h, r)?;
    let at = |x: i32, y: i32| -> char {
        match &cells[(y * w as i32 + x) as usize].glyph {
            Glyph::Lead(s) => s.chars().next().unwrap(),
            Glyph::Cont => '?',
        }
    };
    let pic = || show(&cells, w as usize);
    let quad = |x: i32, y: i32| -> Quad {
        if x < 0 || y < 0 || x >= w as i32 || y >= h as i32 { (0, 0, 0, 0) } else { arms(at(x, y)).unwrap_or((0, 0, 0, 0)) }
    };
    g.key(&css);
    g.nontrivial_if(count > 1);
    let mut size = vec![(i32::MAX, i32::MAX, i32::MIN, i32::MIN, 0); count];
    for y in 0..h as i32 {
        for x in 0..w as i32 {
            let q = quad(x, y);
            let inside = r.contains_point(x, y);
            ensure!(inside || at(x, y) == ' ', "something is drawn outside the container at {x},{y}\n{}", pic());
            // lines are connected, of one kind and of the keyline's colour
            for (d, (nx, ny)) in [(x, y - 1), (x + 1, y), (x, y + 1), (x - 1, y)].into_iter().enumerate() {
                let arm = [q.0, q.1, q.2, q.3][d];
                let n = quad(nx, ny);
                let back = [n.2, n.3, n.0, n.1][d];
                ensure!(arm == 0 || arm == lt, "a line of another kind at {x},{y}\n{}", pic());
                ensure!(arm == back, "the line at {x},{y} does not go on at {nx},{ny}\n{}", pic());
            }
            if q != (0, 0, 0, 0) {
                ensure_eq!(cells[(y * w as i32 + x) as usize].fg, Some((10, 200, 30)), "colour of the line at {x},{y}");
            }
            let edge = inside && (x == r.x || x == r.x + r.width - 1 || y == r.y || y == r.y + r.height - 1);
            ensure!(!edge || q != (0, 0, 0, 0), "no line at the edge of the container at {x},{y}\n{}", pic());
            let c = at(x, y);
            if c.is_ascii_lowercase() {
                let s = &mut size[(c as u8 - b'a') as usize];
                *s = (s.0.min(x), s.1.min(y), s.2.max(x), s.3.max(y), s.4 + 1);
            }
        }
    }
    for (n, s) in size.iter().enumerate() {
        ensure!(s.4 > 0 && s.4 == (s.2 - s.0 + 1) * (s.3 - s.1 + 1), "child {n} is covered in part\n{}", pic());
    }
    // two children next to each other have a line between them
    for y in 0..h as i32 {
        let mut last: Option<char> = None;
        for x in 0..w as i32 {
            let c = at(x, y);
            if c.is_ascii_lowercase() {
                ensure!(last.is_none_or(|l| l == c), "no line between {last:?} and {c:?} in row {y}\n{}", pic());
                last = Some(c);
            } else if quad(x, y) != (0, 0, 0, 0) {
                last = None;
            }
        }
    }
    for x in 0..w as i32 {
        let mut last: Option<char> = None;
        for y in 0..h as i32 {
            let c = at(x, y);
            if c.is_ascii_lowercase() {
                ensure!(last.is_none_or(|l| l == c), "no line between {last:?} and {c:?} in column {x}\n{}", pic());
                last = Some(c);
            } else if quad(x, y) != (0, 0, 0, 0) {
                last = None;
            }
        }
    }
    let _ = (&spans, cols, rows);
    Ok(())
}

pub const P25: Property = Property {
    id: "C25",
    rule: "two or more arms (chars); at least one line (canvas); two or more children (containers)",
    assumptions: &[],
    parts: &[
        Part { name: "chars", quick: 160_000, thorough: 1_600_000, f: chars },
        Part { name: "canvas", quick: 240_000, thorough: 2_400_000, f: canvas },
        Part { name: "containers", quick: 48_000, thorough: 480_000, f: containers },
    ],
};
