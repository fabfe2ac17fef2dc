//! C26: the mouse reaches what is shown under the pointer, and only that.
use crate::engine::{G, Part, Property, R};
use crate::trees::{self, Log, Seen, Shared, letter};
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyCode, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::ComputedStyle;
use textual::widget::screen::Screen;
use textual::{Canvas, Region, Size, Widget};

struct Stage {
    root: Box<dyn Widget<usize>>,
    log: Shared,
    region: Region,
    size: (u16, u16),
}

impl Stage {
    fn paint(&self) -> Vec<Vec<char>> {
        let mut c = Canvas::new(self.size.0, self.size.1);
        self.log.borrow_mut().painted.clear();
        self.root.render(&mut c, self.region);
        (0..self.size.1 as i32).map(|y| (0..self.size.0 as i32).map(|x| c.get_char(x, y)).collect()).collect()
    }
    fn send(&mut self, e: MouseEvent, with_sender: bool) -> Option<usize> {
        self.log.borrow_mut().mouse.clear();
        if e.kind == MouseEventKind::Moved {
            textual::clear_all_hover(self.root.as_mut());
        }
        if with_sender { self.root.on_mouse_with_sender(e, self.region).map(|(m, _)| m) } else { self.root.on_mouse(e, self.region) }
    }
}

fn targets(g: &mut G) -> R {
    let size = (g.u16(4, 34), g.u16(3, 14));
    let mut next = 0;
    let depth = g.usize(1, 3);
    let screen = g.chance(1, 4);
    let mut spec = loop {
        let s = trees::gen_node(g, depth, false, false, &mut next);
        if s.kind != trees::Box_::Probe {
            break s;
        }
        next = 0;
        if g.rec.len() > 400 {
            return Ok(());
        }
    };
    let log: Shared = Rc::new(RefCell::new(Log::default()));
    // The root sits somewhere on the canvas, not always covering it.
    let (ox, oy) = if screen || g.chance(1, 2) { (0, 0) } else { (g.i32(0, 3), g.i32(0, 2)) };
    let region = Region::new(ox, oy, size.0 as i32 - ox - if ox > 0 { g.i32(0, 2).min(size.0 as i32 - ox - 1) } else { 0 }, size.1 as i32 - oy);
    let root: Box<dyn Widget<usize>> = if screen {
        let mut st: ComputedStyle = spec.style.clone();
        st.layout = tcss::types::Layout::Vertical;
        let mut sc = Screen::new(vec![trees::build(&spec, &log)]);
        if g.bool() {
            // Several children directly on the screen.
            let kids = std::mem::take(&mut spec.kids);
            sc = Screen::new(kids.iter().map(|k| trees::build(k, &log)).collect());
            spec.kids = kids;
            st = spec.style.clone();
        }
        sc.set_style(st);
        Box::new(sc)
    } else {
        trees::build(&spec, &log)
    };
    let mut st = Stage { root, log, region, size };
    st.root.on_resize(Size { width: size.0, height: size.1 });
    g.note(|| {
        let mut s = format!("{}x{} canvas, root{} at {:?}\n", size.0, size.1, if screen { " (in a screen)" } else { "" }, (region.x, region.y, region.width, region.height));
        trees::show(&spec, 2, &mut s);
        s
    });
    let mut shown = st.paint();
    // Scroll around first.
    for _ in 0..g.usize(0, 6) {
        let (x, y) = (g.u16(0, size.0 - 1), g.u16(0, size.1 - 1));
        let kind = *g.of(&[MouseEventKind::ScrollDown, MouseEventKind::ScrollRight, MouseEventKind::ScrollUp, MouseEventKind::ScrollLeft]);
        match g.weighted(&[3, 2, 1]) {
            0 => {
                let mut e = trees::mouse_event(kind, x, y);
                if g.chance(1, 4) {
                    e.modifiers = KeyModifiers::SHIFT;
                }
                st.send(e, g.bool());
                g.note(|| format!("{kind:?} at {x},{y}"));
            }
            1 => {
                let k = *g.of(&[KeyCode::End, KeyCode::Home, KeyCode::Right, KeyCode::PageDown, KeyCode::Down]);
                st.root.on_event(k);
                g.note(|| format!("key {k:?}"));
            }
            _ => {
                st.send(trees::mouse_event(MouseEventKind::Down(MouseButton::Left), x, y), false);
                st.send(trees::mouse_event(MouseEventKind::Drag(MouseButton::Left), x, g.u16(0, size.1 - 1)), true);
                st.send(trees::mouse_event(MouseEventKind::Up(MouseButton::Left), x, y), false);
                g.note(|| format!("drag from {x},{y}"));
            }
        }
        shown = st.paint();
    }
    let mut seen = 0;
    let mut chrome = 0;
    let with_sender = g.bool();
    for y in 0..size.1 {
        for x in 0..size.0 {
            let c = shown[y as usize][x as usize];
            let want: Vec<Seen> = st.log.borrow().painted.iter().filter(|p| letter(p.probe) == c).cloned().collect();
            for kind in [MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left)] {
                let got = st.send(trees::mouse_event(kind, x, y), with_sender);
                let log = st.log.borrow();
                ensure_eq!(log.mouse, want, "{kind:?} at {x},{y} where {c:?} is shown\n{}", show(&shown));
                if kind == MouseEventKind::Moved {
                    ensure_eq!(log.hover, want.iter().map(|w| w.probe).collect::<Vec<_>>(), "hovered with the pointer at {x},{y} on {c:?}");
                }
                if let Some(m) = got {
                    ensure!(want.len() == 1 && want[0].probe == m, "answer {m} from {x},{y}");
                }
            }
            if want.is_empty() {
                chrome += 1;
                // A click on a scrollbar may have scrolled.
                if region.contains_point(x as i32, y as i32) {
                    let now = st.paint();
                    if now != shown {
                        g.label("scrolled by a click");
                        shown = now;
                    }
                }
            } else {
                seen += 1;
            }
        }
    }
    g.label_if(seen > 0, "a probe under the pointer");
    g.label_if(screen, "inside a screen");
    g.nontrivial_if(seen > 10 && chrome > 0 && next > 1);
    Ok(())
}

fn show(rows: &[Vec<char>]) -> String {
    rows.iter().map(|r| format!("  |{}|\n", r.iter().collect::<String>())).collect()
}

pub static P26: Property = Property {
    id: "C26",
    rule: "a tree with at least two probes where more than ten cells show a probe and some show none",
    assumptions: &["probe widgets stand for interactive ones: they paint their whole region and record the events they get"],
    parts: &[Part { name: "targets", quick: 6_000, thorough: 300_000, f: targets }],
};
