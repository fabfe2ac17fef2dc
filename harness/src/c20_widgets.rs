//! C20 the text field, C21 buttons, switches and option lists: histories against small models.
use crate::c11_canvas::{Glyph, canvas_cells};
use crate::common::*;
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use tcss::WidgetStates;
use textual::widget::button::Button;
use textual::widget::option_list::OptionItem;
use textual::{Canvas, Input, KeyCode, OptionList, Region, Switch, Widget};

type M = u32;

// ---------------------------------------------------------------- C20

struct Field {
    text: String,
    /// byte position, always at a grapheme boundary
    at: usize,
}
impl Field {
    fn index(&self) -> usize {
        graphemes(&self.text[..self.at]).len()
    }
    fn bounds(&self) -> Vec<usize> {
        let mut v = vec![0];
        let mut p = 0;
        for x in graphemes(&self.text) {
            p += x.len();
            v.push(p);
        }
        v
    }
    fn to_index(&mut self, i: usize) {
        let b = self.bounds();
        self.at = b[i.min(b.len() - 1)];
    }
}

const TYPED: &[char] = &['a', 'b', 'Z', '0', ' ', '[', ']', '\\', '/', '@', '=', 'é', '世', '漢', '🎉', '\u{301}', '\u{308}', '\'', '"'];

fn edit(g: &mut G) -> R {
    let mut input: Input<M> = Input::new();
    let mut m = Field { text: String::new(), at: 0 };
    let mut disabled = false;
    let mut focused = false;
    let mut placeholder: Option<&str> = g.bool().then_some("hint [x]");
    if let Some(p) = placeholder {
        input.set_placeholder(p);
    }
    let n = g.usize(0, 25);
    let mut merged = false;
    let mut edits = 0;
    for _ in 0..n {
        let op = g.weighted(&[12, 4, 2, 4, 3, 1, 1, 1, 1, 1, 1, 1]);
        match op {
            0 => {
                let c = *g.of(TYPED);
                g.note(|| format!("type {c:?}"));
                ensure!(input.on_event(KeyCode::Char(c)).is_none(), "typing sends no message");
                if !disabled {
                    edits += 1;
                    m.text.insert(m.at, c);
                    let end = m.at + c.len_utf8();
                    // the cursor stands after the character typed, at the character it may have joined
                    let i = graphemes(&m.text[..end]).len();
                    merged |= c == '\u{301}' || c == '\u{308}';
                    m.to_index(i);
                }
            }
            1 => {
                g.note(|| "backspace".into());
                input.on_event(KeyCode::Backspace);
                if !disabled && m.at > 0 {
                    let i = m.index();
                    let b = m.bounds();
                    m.text.replace_range(b[i - 1]..b[i], "");
                    m.to_index(i - 1);
                }
            }
            2 => {
                g.note(|| "delete".into());
                input.on_event(KeyCode::Delete);
                if !disabled && m.at < m.text.len() {
                    let i = m.index();
                    let b = m.bounds();
                    m.text.replace_range(b[i]..b[i + 1], "");
                    m.to_index(i);
                }
            }
            3 => {
                g.note(|| "left".into());
                input.on_event(KeyCode::Left);
                if !disabled && m.at > 0 {
                    let i = m.index();
                    m.to_index(i - 1);
                }
            }
            4 => {
                g.note(|| "right".into());
                input.on_event(KeyCode::Right);
                if !disabled {
                    let i = m.index();
                    m.to_index(i + 1);
                }
            }
            5 => {
                g.note(|| "home".into());
                input.on_event(KeyCode::Home);
                if !disabled {
                    m.at = 0;
                }
            }
            6 => {
                g.note(|| "end".into());
                input.on_event(KeyCode::End);
                if !disabled {
                    m.at = m.text.len();
                }
            }
            7 => {
                let t = line(g, 3, 4);
                g.note(|| format!("set_value {t:?}"));
                let i = m.index();
                input.set_value(t.clone());
                m.text = t;
                m.to_index(i);
            }
            8 => {
                let i = g.usize(0, 12);
                g.note(|| format!("set_cursor {i}"));
                input.set_cursor(i);
                m.to_index(i);
            }
            9 => {
                disabled = g.bool();
                g.note(|| format!("disabled {disabled}"));
                input.set_disabled(disabled);
            }
            10 => {
                placeholder = if g.chance(1, 3) { None } else { Some(*g.of(&["hint [x]", "q", "漢字 here", ""])) };
                g.note(|| format!("placeholder {placeholder:?}"));
                match placeholder {
                    Some(p) => input.set_placeholder(p),
                    None => input.clear_placeholder(),
                }
            }
            _ => {
                focused = g.bool();
                g.note(|| format!("focus {focused}"));
                input.set_focus(focused);
                for k in [KeyCode::Enter, KeyCode::Tab, KeyCode::Up, KeyCode::F(3)] {
                    input.on_event(k);
                }
            }
        }
        ensure_eq!(input.value(), m.text.as_str(), "value");
        ensure_eq!(input.cursor(), m.index(), "cursor (in characters) in {:?}", m.text);
    }
    g.nontrivial_if(edits >= 3);
    g.label_if(merged, "combining mark typed");
    // What is shown: the value as it is, and a marked cell under the cursor when focused.
    let w = width(&m.text) + 1;
    if m.text.is_empty() {
        let shown = placeholder.unwrap_or("");
        let mut c = Canvas::new(14, 1);
        input.render(&mut c, Region::new(0, 0, 14, 1));
        let row = shown_row(&c);
        ensure_eq!(row.trim_end(), shown, "an empty field shows its placeholder");
        for (x, cell) in canvas_cells(&c).iter().enumerate() {
            let cursor = cell.bg == Some((0xe0, 0xe0, 0xe0));
            // A wide first character is marked as a whole.
            let wide = x == 1 && focused && shown.starts_with('漢');
            ensure_eq!(cursor, focused && x == 0 || wide, "cell {x} of the empty field: drawn as the cursor");
            if !cursor && x < width(shown) {
                ensure_eq!(cell.fg, Some((0x6d, 0x74, 0x79)), "cell {x} of the placeholder {shown:?}: colour");
            }
        }
    }
    if !m.text.is_empty() && !m.text.starts_with(['\u{301}', '\u{308}']) && !m.text.contains(" \u{301}") && !m.text.contains(" \u{308}") {
        g.label("display checked");
        let mut c = Canvas::new(w as u16 + 3, 1);
        input.render(&mut c, Region::new(0, 0, w as i32 + 3, 1));
        let cells = canvas_cells(&c);
        let mut x = 0;
        let cur = m.index();
        let on = |b: bool| if b { Some((0xe0, 0xe0, 0xe0)) } else { None };
        for (i, gr) in graphemes(&m.text).iter().enumerate() {
            ensure!(cells[x].glyph == Glyph::Lead(gr.to_string()), "cell {x} shows {:?}, want {gr:?} of {:?}", cells[x].glyph, m.text);
            ensure_eq!(cells[x].bg == on(true), focused && i == cur, "cell {x} of {:?}: drawn as the cursor", m.text);
            x += gw(gr);
        }
        ensure_eq!(cells[x].bg == on(true), focused && cur == graphemes(&m.text).len(), "cell after the text of {:?}: drawn as the cursor", m.text);
    }
    Ok(())
}

pub const P20: Property = Property {
    id: "C20",
    rule: "at least three characters typed",
    assumptions: &["the value fits the field when its display is checked", "a combining mark at the start of the value or after a space is not displayed-checked"],
    parts: &[Part { name: "edit", quick: 1_200_000, thorough: 12_000_000, f: edit }],
};

// ---------------------------------------------------------------- C21

fn mouse(kind: MouseEventKind, x: u16, y: u16) -> MouseEvent {
    MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }
}

fn flags(states: WidgetStates, focus: bool, hover: bool, active: bool, disabled: bool) -> R {
    for (flag, want) in [(WidgetStates::FOCUS, focus), (WidgetStates::HOVER, hover), (WidgetStates::ACTIVE, active), (WidgetStates::DISABLED, disabled)] {
        ensure_eq!(states.contains(flag), want, "{flag:?}");
    }
    Ok(())
}

fn toggles(g: &mut G) -> R {
    let start = g.bool();
    let mut sw = Switch::new(start, |v| 100 + v as u32);
    let mut value = start;
    let (mut foc, mut dis, mut load, mut held, mut hover) = (false, false, false, false, false);
    let r = Region::new(g.i32(0, 4), g.i32(0, 4), g.i32(1, 12), g.i32(1, 3));
    let n = g.usize(1, 20);
    let mut flips = 0;
    for _ in 0..n {
        let mut want = None;
        let got = match g.usize(0, 10) {
            9 => {
                let (x, y) = (g.u16(0, 17), g.u16(0, 8));
                hover = r.contains_point(x as i32, y as i32);
                g.note(|| format!("move to {x},{y}"));
                sw.on_mouse(mouse(MouseEventKind::Moved, x, y), r)
            }
            10 => {
                g.note(|| "clear_hover".into());
                hover = false;
                held = false; // the pointer left: the press is over
                sw.clear_hover();
                None
            }
            0 => { foc = g.bool(); g.note(|| format!("focus {foc}")); sw.set_focus(foc); None }
            1 => { dis = g.chance(1, 3); g.note(|| format!("disabled {dis}")); sw.set_disabled(dis); None }
            2 => { load = g.chance(1, 3); g.note(|| format!("loading {load}")); sw.set_loading(load); None }
            3 => { value = g.bool(); g.note(|| format!("set_value {value}")); sw.set_value(value); None }
            4 | 5 => {
                let k = *g.of(&[KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char('x'), KeyCode::Tab]);
                g.note(|| format!("key {k:?}"));
                if foc && !dis && !load && matches!(k, KeyCode::Enter | KeyCode::Char(' ')) {
                    value = !value;
                    want = Some(100 + value as u32);
                }
                sw.on_event(k)
            }
            k => {
                let (x, y) = (g.u16(0, 17), g.u16(0, 8));
                let inside = (x as i32) >= r.x && (x as i32) < r.x + r.width && (y as i32) >= r.y && (y as i32) < r.y + r.height;
                let (kind, down) = match k {
                    6 => (MouseEventKind::Down(MouseButton::Left), true),
                    _ => (MouseEventKind::Up(MouseButton::Left), false),
                };
                g.note(|| format!("mouse {} at {x},{y} ({})", if down { "down" } else { "up" }, if inside { "inside" } else { "outside" }));
                if down {
                    if inside && !dis && !load {
                        held = true;
                    }
                } else {
                    if held && inside && !dis && !load {
                        value = !value;
                        want = Some(100 + value as u32);
                    }
                    held = false;
                }
                sw.on_mouse(mouse(kind, x, y), r)
            }
        };
        flips += want.is_some() as u32;
        ensure_eq!(got, want, "message");
        ensure_eq!(sw.value, value, "value");
        flags(sw.get_state(), foc, hover, held, dis)?;
        flags(sw.get_meta().states, foc, hover, held, dis)?;
        let mut c = Canvas::new(14, 1);
        sw.render(&mut c, Region::new(0, 0, 14, 1));
        let row = c.row_str(0);
        ensure_eq!(row.contains("ON"), value && !load, "ON in {row:?}");
        ensure_eq!(row.contains("OFF"), !value && !load, "OFF in {row:?}");
        ensure_eq!((row.contains('>'), row.contains('<')), (foc, foc), "focus marks in {row:?}");
        ensure_eq!(sw.is_focusable(), !dis && !load, "focusable");
    }
    g.nontrivial_if(flips > 0);
    Ok(())
}

fn presses(g: &mut G) -> R {
    let with_action = g.chance(1, 3);
    let mut b: Button<M> = Button::new("Go").with_on_press(|| 7);
    if with_action {
        b = b.with_action("do_it");
    }
    let r = Region::new(g.i32(0, 4), g.i32(0, 4), g.i32(1, 12), g.i32(1, 3));
    let (mut dis, mut held, mut hover, mut foc) = (false, false, false, false);
    let mut label = "Go".to_string();
    let n = g.usize(1, 16);
    let mut total = 0;
    for _ in 0..n {
        let mut want = false;
        let got = match g.usize(0, 10) {
            7 => {
                let (x, y) = (g.u16(0, 17), g.u16(0, 8));
                hover = r.contains_point(x as i32, y as i32);
                g.note(|| format!("move to {x},{y}"));
                b.on_mouse(mouse(MouseEventKind::Moved, x, y), r)
            }
            8 => {
                g.note(|| "clear_hover".into());
                hover = false;
                b.clear_hover();
                None
            }
            9 => { foc = g.bool(); g.note(|| format!("focus {foc}")); b.set_focus(foc); None }
            10 => {
                label = g.pick(&["Go", "Stop it", "a[b]c", "é漢", "x"]).to_string();
                g.note(|| format!("label {label}"));
                b.set_label(label.clone());
                None
            }
            0 => { dis = g.chance(1, 3); g.note(|| format!("disabled {dis}")); b.set_disabled(dis); None }
            1 | 2 => {
                let k = *g.of(&[KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char('x'), KeyCode::Esc]);
                g.note(|| format!("key {k:?}"));
                want = !dis && matches!(k, KeyCode::Enter | KeyCode::Char(' '));
                b.on_event(k)
            }
            k => {
                let (x, y) = (g.u16(0, 17), g.u16(0, 8));
                let inside = r.contains_point(x as i32, y as i32);
                let btn = if g.chance(1, 5) { MouseButton::Right } else { MouseButton::Left };
                let down = k < 5;
                g.note(|| format!("{btn:?} {} at {x},{y} ({})", if down { "down" } else { "up" }, if inside { "inside" } else { "outside" }));
                if btn == MouseButton::Left {
                    if down {
                        held |= inside && !dis;
                    } else {
                        want = held && inside && !dis;
                        held = false;
                    }
                }
                b.on_mouse(mouse(if down { MouseEventKind::Down(btn) } else { MouseEventKind::Up(btn) }, x, y), r)
            }
        };
        total += want as u32;
        ensure_eq!(got, (want && !with_action).then_some(7), "message");
        ensure_eq!(Widget::take_pending_action(&b), (want && with_action).then(|| "do_it".to_string()), "action");
        ensure_eq!(b.is_focusable(), !dis, "focusable");
        flags(b.get_state(), foc, hover, held, dis)?;
        flags(b.get_meta().states, foc, hover, held, dis)?;
        let mut c = Canvas::new(14, 1);
        b.render(&mut c, Region::new(0, 0, 14, 1));
        let row = shown_row(&c);
        ensure_eq!(row.trim(), label.as_str(), "label shown");
    }
    g.nontrivial_if(total > 0);
    Ok(())
}

/// The text of a one-row canvas (a double-width character once).
fn shown_row(c: &Canvas) -> String {
    canvas_cells(c)
        .iter()
        .filter_map(|m| match &m.glyph {
            Glyph::Lead(s) => Some(s.clone()),
            _ => None,
        })
        .collect()
}

fn items(g: &mut G) -> Vec<(String, bool)> {
    let n = g.usize(0, 7);
    (0..n)
        .map(|i| {
            let lines = if g.chance(1, 5) { g.usize(2, 3) } else { 1 };
            let t: Vec<String> = (0..lines).map(|l| format!("i{i}l{l}{}", g.pick(&["", "[b]", "x y", "]"]))).collect();
            (t.join("\n"), g.chance(1, 3))
        })
        .collect()
}

fn list(g: &mut G) -> R {
    let mut its = items(g);
    let mut ol: OptionList<M> = OptionList::new(vec![]);
    ol.set_items_with_state(its.iter().map(|(t, d)| OptionItem::new(t.clone()).disabled(*d)).collect());
    g.note(|| format!("items {its:?}"));
    // nearest enabled entry: this one, else the next below, else the next above
    let settle = |its: &[(String, bool)], i: usize| -> usize {
        if its.is_empty() {
            return 0;
        }
        let i = i.min(its.len() - 1);
        if !its[i].1 {
            return i;
        }
        (i + 1..its.len()).find(|&j| !its[j].1).or_else(|| (0..i).rev().find(|&j| !its[j].1)).unwrap_or(i)
    };
    let mut sel = settle(&its, 0);
    let (mut dis, mut foc) = (false, false);
    let n = g.usize(1, 20);
    let mut moved = 0;
    for _ in 0..n {
        let before = sel;
        match g.weighted(&[4, 4, 1, 2, 2, 1, 1, 2]) {
            0 => {
                g.note(|| "down".into());
                ol.on_event(KeyCode::Down);
                if !dis {
                    sel = (sel + 1..its.len()).find(|&j| !its[j].1).unwrap_or(sel);
                }
            }
            1 => {
                g.note(|| "up".into());
                ol.on_event(KeyCode::Up);
                if !dis {
                    sel = (0..sel).rev().find(|&j| !its[j].1).unwrap_or(sel);
                }
            }
            2 => {
                dis = g.chance(1, 2);
                g.note(|| format!("disabled {dis}"));
                ol.set_disabled(dis);
            }
            6 => {
                foc = g.bool();
                g.note(|| format!("focus {foc}"));
                ol.set_focus(foc);
            }
            3 => {
                let k = *g.of(&[KeyCode::Enter, KeyCode::Left, KeyCode::Char('j'), KeyCode::Tab]);
                g.note(|| format!("key {k:?}"));
                ol.on_event(k);
            }
            4 => {
                let i = g.usize(0, 8);
                g.note(|| format!("set_selected {i}"));
                ol.set_selected(i);
                sel = settle(&its, i);
            }
            5 => {
                its = items(g);
                g.note(|| format!("set items {its:?}"));
                if g.bool() {
                    for i in &mut its {
                        i.1 = false;
                    }
                    ol.set_items(its.iter().map(|p| p.0.clone()).collect());
                } else {
                    ol.set_items_with_state(its.iter().map(|(t, d)| OptionItem::new(t.clone()).disabled(*d)).collect());
                }
                sel = settle(&its, sel);
            }
            _ => {
                // click on what is drawn
                let (w, h) = (30, 24);
                let mut c = Canvas::new(w + 6, h + 4);
                let r = Region::new(g.i32(0, 5), g.i32(0, 3), w as i32, h as i32);
                ol.render(&mut c, r);
                let (x, y) = (g.u16(0, w + 5), g.u16(0, h + 3));
                let row = c.row_str(y as i32);
                let inside = r.contains_point(x as i32, y as i32);
                let hit = (0..its.len()).find(|i| row.trim_start().starts_with(&format!("i{i}l")) && inside && !dis);
                g.note(|| format!("click {x},{y} with the list at {},{} where row {y} shows {:?}", r.x, r.y, row.trim()));
                let right = g.chance(1, 6);
                let button = if right { MouseButton::Right } else { MouseButton::Left };
                ol.on_mouse(mouse(MouseEventKind::Down(button), x, y), r);
                ol.on_mouse(mouse(MouseEventKind::Up(button), x, y), r);
                let chosen = hit.filter(|&i| !its[i].1 && !right);
                ensure_eq!(ol.take_pending_selection(), chosen, "clicked entry");
                g.label_if(chosen.is_some(), "clicked an entry");
                sel = chosen.unwrap_or(sel);
            }
        }
        moved += (before != sel) as u32;
        ensure_eq!(ol.selected_index(), sel, "selected entry");
        ensure_eq!(ol.selected(), its.get(sel).map(|p| p.0.as_str()), "selected text");
        ensure_eq!(ol.items().len(), its.len(), "entries");
        flags(ol.get_meta().states, foc, false, false, dis)?;
        ensure_eq!(ol.is_focusable(), !dis, "focusable");
        // Only the selected entry carries the highlight, only disabled ones are marked so.
        let mut marks = vec![];
        ol.for_each_child(&mut |c| marks.push((c.has_class("option-list--option"), c.has_class("option-list--option-highlighted"), c.has_class("option-list--option-disabled"), c.is_disabled())));
        let want: Vec<_> = its.iter().enumerate().map(|(i, p)| (true, i == sel && !p.1, p.1, p.1)).collect();
        ensure_eq!(marks, if its.is_empty() { vec![(true, false, false, false)] } else { want }, "entries' classes (entry, highlighted, disabled) and state");
    }
    g.nontrivial_if(moved >= 2);
    // every line of every entry is on screen, in order
    let lines: Vec<&str> = its.iter().flat_map(|p| p.0.split('\n')).collect();
    let mut c = Canvas::new(30, 24);
    ol.render(&mut c, Region::new(0, 0, 30, 24));
    for (y, l) in lines.iter().enumerate() {
        let row = c.row_str(y as i32);
        ensure_eq!(row.trim_end(), l.trim_end(), "row {y} of the list");
    }
    Ok(())
}

pub const P21: Property = Property {
    id: "C21",
    rule: "the history changes the value, presses the button or moves the selection",
    assumptions: &["option lists are given enough room to show every entry"],
    parts: &[
        Part { name: "switch", quick: 300_000, thorough: 3_000_000, f: toggles },
        Part { name: "button", quick: 300_000, thorough: 3_000_000, f: presses },
        Part { name: "option_list", quick: 120_000, thorough: 1_500_000, f: list },
    ],
};
