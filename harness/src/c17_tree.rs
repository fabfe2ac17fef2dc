//! C17 keyboard focus, C18 widget queries, C19 message bubbling: histories on random widget trees against a model
//! of the tree.
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyCode, MouseEvent};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use tcss::types::{ComputedStyle, Display, StyleOverride};
use tcss::{WidgetMeta, WidgetStates};
use textual::containers::{Center, Middle, item_grid::ItemGrid};
use textual::tree::WidgetTree;
use textual::widget::app_widget::AppWidget;
use textual::widget::button::Button;
use textual::widget::screen::Screen;
use textual::widget::switch::Switch;
use textual::{
    Canvas, Container, Grid, Horizontal, HorizontalScroll, Input, Label, MessageEnvelope, OptionList, Region, ScrollableContainer, Size, Static,
    Tooltip, Vertical, VerticalScroll, Widget,
};

pub(crate) type Msg = i64;

#[derive(Default)]
pub(crate) struct Log {
    keys: Vec<usize>,
    handled: Vec<usize>,
}
pub(crate) type Shared = Rc<RefCell<Log>>;

/// A leaf of our own.
pub(crate) struct Leaf {
    tag: usize,
    name: &'static str,
    id: Option<String>,
    can_focus: bool,
    focused: bool,
    hovered: bool,
    disabled: bool,
    visible: bool,
    dirty: bool,
    inline: Option<StyleOverride>,
    classes: Vec<String>,
    style: ComputedStyle,
    log: Shared,
}

impl Widget<Msg> for Leaf {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size {
        Size { width: 1, height: 1 }
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: self.name, type_names: vec![self.name], id: self.id.clone(), classes: self.classes.clone(), states: self.get_state() }
    }
    fn get_state(&self) -> WidgetStates {
        let mut s = WidgetStates::empty();
        s.set(WidgetStates::FOCUS, self.focused);
        s.set(WidgetStates::HOVER, self.hovered);
        s.set(WidgetStates::DISABLED, self.disabled);
        s
    }
    fn set_focus(&mut self, f: bool) {
        self.dirty |= self.focused != f;
        self.focused = f;
    }
    fn set_hover(&mut self, h: bool) -> bool {
        let changed = self.hovered != h;
        self.dirty |= changed;
        self.hovered = h;
        changed
    }
    fn clear_hover(&mut self) {
        self.set_hover(false);
    }
    fn set_inline_style(&mut self, s: StyleOverride) {
        self.dirty = true;
        self.inline = Some(s);
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        self.inline.as_ref()
    }
    fn clear_inline_style(&mut self) {
        self.dirty = true;
        self.inline = None;
    }
    fn is_focused(&self) -> bool {
        self.focused
    }
    fn is_focusable(&self) -> bool {
        self.can_focus && !self.disabled && self.visible
    }
    fn is_visible(&self) -> bool {
        self.visible
    }
    fn set_visible(&mut self, v: bool) {
        self.dirty = true;
        self.visible = v;
    }
    fn is_disabled(&self) -> bool {
        self.disabled
    }
    fn set_disabled(&mut self, d: bool) {
        self.dirty = true;
        self.disabled = d;
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn mark_dirty(&mut self) {
        self.dirty = true;
    }
    fn mark_clean(&mut self) {
        self.dirty = false;
    }
    fn on_event(&mut self, _: KeyCode) -> Option<Msg> {
        self.log.borrow_mut().keys.push(self.tag);
        Some(self.tag as Msg)
    }
    fn handle_message(&mut self, _: &mut MessageEnvelope<Msg>) -> Option<Msg> {
        self.log.borrow_mut().handled.push(self.tag);
        None
    }
    fn id(&self) -> Option<&str> {
        self.id.as_deref()
    }
    fn type_name(&self) -> &'static str {
        self.name
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
        Some(self)
    }
    fn add_class(&mut self, c: &str) {
        if !self.has_class(c) {
            self.dirty = true;
            self.classes.push(c.into());
        }
    }
    fn remove_class(&mut self, c: &str) {
        self.dirty = true;
        self.classes.retain(|x| x != c);
    }
    fn has_class(&self, c: &str) -> bool {
        self.classes.iter().any(|x| x == c)
    }
    fn set_classes(&mut self, c: &str) {
        self.dirty = true;
        self.classes = c.split_whitespace().map(String::from).collect();
    }
    fn classes(&self) -> Vec<String> {
        self.classes.clone()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) struct React {
    add: Option<i64>,
    stop: bool,
}

/// A container of the application's own: it forwards everything to one of the library's and takes part in bubbling.
pub(crate) struct Wrap {
    tag: usize,
    name: &'static str,
    react: React,
    inner: Box<dyn Widget<Msg>>,
    log: Shared,
}

impl Widget<Msg> for Wrap {
    fn render(&self, c: &mut Canvas, r: Region) {
        self.inner.render(c, r)
    }
    fn desired_size(&self) -> Size {
        self.inner.desired_size()
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {
        self.inner.for_each_child(f)
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.inner.set_style(s)
    }
    fn get_style(&self) -> ComputedStyle {
        self.inner.get_style()
    }
    fn get_meta(&self) -> WidgetMeta {
        let mut m = self.inner.get_meta();
        m.type_name = self.name;
        m
    }
    fn is_dirty(&self) -> bool {
        self.inner.is_dirty()
    }
    fn mark_dirty(&mut self) {
        self.inner.mark_dirty()
    }
    fn mark_clean(&mut self) {
        self.inner.mark_clean()
    }
    fn set_inline_style(&mut self, s: StyleOverride) {
        self.inner.set_inline_style(s)
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        self.inner.inline_style()
    }
    fn clear_inline_style(&mut self) {
        self.inner.clear_inline_style()
    }
    fn set_classes(&mut self, c: &str) {
        self.inner.set_classes(c)
    }
    fn on_resize(&mut self, s: Size) {
        self.inner.on_resize(s)
    }
    fn set_focus(&mut self, f: bool) {
        self.inner.set_focus(f)
    }
    fn is_focused(&self) -> bool {
        self.inner.is_focused()
    }
    fn is_focusable(&self) -> bool {
        self.inner.is_focusable()
    }
    fn count_focusable(&self) -> usize {
        self.inner.count_focusable()
    }
    fn clear_focus(&mut self) {
        self.inner.clear_focus()
    }
    fn focus_nth(&mut self, n: usize) -> bool {
        self.inner.focus_nth(n)
    }
    fn child_count(&self) -> usize {
        self.inner.child_count()
    }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<Msg> + '_)> {
        self.inner.get_child_mut(i)
    }
    fn on_event(&mut self, k: KeyCode) -> Option<Msg> {
        self.inner.on_event(k)
    }
    fn on_mouse(&mut self, e: MouseEvent, r: Region) -> Option<Msg> {
        self.inner.on_mouse(e, r)
    }
    fn handle_message(&mut self, env: &mut MessageEnvelope<Msg>) -> Option<Msg> {
        self.log.borrow_mut().handled.push(self.tag);
        if self.react.stop {
            env.stop();
        }
        self.react.add.map(|a| env.message * 3 + a)
    }
    fn id(&self) -> Option<&str> {
        self.inner.id()
    }
    fn type_name(&self) -> &'static str {
        self.name
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
        Some(self)
    }
    fn add_class(&mut self, c: &str) {
        self.inner.add_class(c)
    }
    fn remove_class(&mut self, c: &str) {
        self.inner.remove_class(c)
    }
    fn has_class(&self, c: &str) -> bool {
        self.inner.has_class(c)
    }
    fn classes(&self) -> Vec<String> {
        self.inner.classes()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum Kind {
    Leaf,
    Switch,
    Button,
    Input,
    Options,
    Static,
    Label,
    Container,
    Vertical,
    Horizontal,
    Grid,
    ItemGrid,
    Scrollable,
    VScroll,
    HScroll,
    Center,
    Middle,
    Screen,
    App,
    Tooltip,
}
use Kind::*;

impl Kind {
    fn is_box(self) -> bool {
        !matches!(self, Leaf | Switch | Button | Input | Options | Static | Label | Tooltip)
    }
    fn type_name(self) -> &'static str {
        match self {
            Leaf => unreachable!(),
            Switch => "Switch",
            Button => "Button",
            Input => "Input",
            Options => "OptionList",
            Static => "Static",
            Label => "Label",
            Container => "Container",
            Vertical => "Vertical",
            Horizontal => "Horizontal",
            Grid => "Grid",
            ItemGrid => "ItemGrid",
            Scrollable => "ScrollableContainer",
            VScroll => "VerticalScroll",
            HScroll => "HorizontalScroll",
            Center => "Center",
            Middle => "Middle",
            Screen => "Screen",
            App => "AppWidget",
            Tooltip => "Tooltip",
        }
    }
    pub(crate) fn has_classes(self) -> bool {
        !matches!(self, Switch | Grid | ItemGrid | Center | Middle | Screen | App | Tooltip)
    }
    fn takes_id(self) -> bool {
        !matches!(self, Screen | App | Tooltip | Center | Middle)
    }
    pub(crate) fn can_disable(self) -> bool {
        matches!(self, Leaf | Switch | Button | Input | Options | Static | Label)
    }
    pub(crate) fn can_hide(self) -> bool {
        matches!(self, Leaf | Switch)
    }
}

#[derive(Clone, Debug)]
pub(crate) struct Node {
    pub(crate) tag: usize,
    pub(crate) kind: Kind,
    pub(crate) name: &'static str,
    pub(crate) id: Option<String>,
    pub(crate) wrap: Option<React>,
    pub(crate) can_focus: bool,
    pub(crate) disabled: bool,
    pub(crate) visible: bool,
    pub(crate) displayed: bool,
    pub(crate) classes: BTreeSet<String>,
    pub(crate) kids: Vec<Node>,
}

pub(crate) const IDS: &[&str] = &["a", "b", "c", "ab", "save", "a-b", "a", "b", "a-", "-b", "_a", "A", "B9", "é"];
pub(crate) const CLASSES: &[&str] = &["x", "y", "wide", "x-y"];

pub(crate) fn leaf(g: &mut G, next: &mut usize) -> Node {
    let kind = *g.of(&[Leaf, Leaf, Leaf, Leaf, Switch, Button, Input, Options, Static, Label]);
    node(g, kind, next)
}

fn node(g: &mut G, kind: Kind, next: &mut usize) -> Node {
    let tag = *next;
    *next += 1;
    let can_focus = match kind {
        Leaf => g.chance(3, 4),
        Switch | Button | Input | Options => true,
        _ => false,
    };
    let wrap = (kind.is_box() && kind != App && g.chance(1, 2)).then(|| React { add: g.bool().then(|| g.int(0, 2)), stop: g.chance(1, 5) });
    let name = match kind {
        Leaf => *g.of(&["Alpha", "Beta"]),
        _ if wrap.is_some() => *g.of(&["Panel", "Alpha"]),
        k => k.type_name(),
    };
    Node {
        tag,
        kind,
        name,
        id: (kind.takes_id() && g.chance(2, 3)).then(|| g.pick(IDS).to_string()),
        wrap,
        can_focus,
        disabled: kind.can_disable() && g.chance(1, 5),
        visible: !(kind.can_hide() && g.chance(1, 6)),
        displayed: !(!matches!(kind, App | Screen | Center | Middle | Tooltip) && g.chance(1, 8)),
        classes: BTreeSet::new(),
        kids: vec![],
    }
}

fn tree(g: &mut G, depth: usize, next: &mut usize) -> Node {
    if depth == 0 || *next > 24 || g.chance(1, 4) {
        return leaf(g, next);
    }
    let kind = *g.of(&[Container, Container, Vertical, Horizontal, Grid, ItemGrid, Scrollable, VScroll, HScroll, Center, Middle]);
    let mut n = node(g, kind, next);
    let kids = if matches!(kind, Center | Middle) { 1 } else { g.usize(0, 4) };
    for _ in 0..kids {
        n.kids.push(tree(g, depth - 1, next));
    }
    n
}

pub(crate) fn gen_tree(g: &mut G) -> Node {
    let mut next = 0;
    match g.weighted(&[4, 2, 1]) {
        0 => {
            let mut app = node(g, App, &mut next);
            let mut screen = node(g, Screen, &mut next);
            for _ in 0..g.usize(1, 4) {
                screen.kids.push(tree(g, 3, &mut next));
            }
            app.kids.push(screen);
            app.kids.push(node(g, Tooltip, &mut next));
            if g.bool() {
                app.kids.push(leaf(g, &mut next));
            }
            app
        }
        1 => {
            let mut c = node(g, Container, &mut next);
            c.displayed = true;
            for _ in 0..g.usize(1, 4) {
                c.kids.push(tree(g, 3, &mut next));
            }
            c
        }
        _ => {
            let mut n = leaf(g, &mut next);
            n.displayed = true;
            n.visible = true;
            n
        }
    }
}

pub(crate) fn build(n: &Node, log: &Shared) -> Box<dyn Widget<Msg>> {
    let kids: Vec<Box<dyn Widget<Msg>>> = n.kids.iter().map(|k| build(k, log)).collect();
    macro_rules! with_id {
        ($w:expr) => {{
            let w = $w;
            match &n.id {
                Some(id) => Box::new(w.with_id(id.clone())) as Box<dyn Widget<Msg>>,
                None => Box::new(w),
            }
        }};
    }
    let mut w: Box<dyn Widget<Msg>> = match n.kind {
        Leaf => Box::new(self::Leaf {
            tag: n.tag,
            name: n.name,
            id: n.id.clone(),
            can_focus: n.can_focus,
            focused: false,
            hovered: false,
            disabled: false,
            visible: true,
            dirty: false,
            inline: None,
            classes: vec![],
            style: ComputedStyle::default(),
            log: log.clone(),
        }),
        Switch => with_id!(self::Switch::new(false, |v: bool| v as Msg)),
        Button => with_id!(self::Button::<Msg>::new("go")),
        Input => with_id!(self::Input::<Msg>::new()),
        Options => with_id!(OptionList::<Msg>::new(vec!["one".into(), "two".into()])),
        Static => with_id!(self::Static::<Msg>::new("text")),
        Label => with_id!(self::Label::<Msg>::new("label")),
        Container => with_id!(self::Container::new(kids)),
        Vertical => with_id!(self::Vertical::new(kids)),
        Horizontal => with_id!(self::Horizontal::new(kids)),
        Grid => with_id!(self::Grid::new(kids)),
        ItemGrid => with_id!(self::ItemGrid::new(kids)),
        Scrollable => with_id!(ScrollableContainer::new(kids)),
        VScroll => with_id!(VerticalScroll::new(kids)),
        HScroll => with_id!(HorizontalScroll::new(kids)),
        Center => Box::new(self::Center::new(kids)),
        Middle => Box::new(self::Middle::new(kids)),
        Screen => Box::new(self::Screen::new(kids)),
        App => Box::new(AppWidget::new(kids)),
        Tooltip => Box::new(self::Tooltip::<Msg>::new()),
    };
    if n.disabled {
        w.set_disabled(true);
    }
    if !n.visible {
        w.set_visible(false);
    }
    if !n.displayed {
        let mut s = w.get_style();
        s.display = Display::None;
        w.set_style(s);
    }
    match n.wrap {
        Some(react) => Box::new(Wrap { tag: n.tag, name: n.name, react, inner: w, log: log.clone() }),
        None => w,
    }
}

pub(crate) fn show(n: &Node, indent: usize, out: &mut String) {
    use std::fmt::Write;
    let _ = write!(out, "{:indent$}{} {:?} {}", "", n.tag, n.kind, n.name, indent = indent);
    if let Some(id) = &n.id {
        let _ = write!(out, " #{id}");
    }
    for (on, what) in [(n.can_focus, "focusable"), (n.disabled, "disabled"), (!n.visible, "hidden"), (!n.displayed, "display:none")] {
        if on {
            let _ = write!(out, " {what}");
        }
    }
    if let Some(w) = n.wrap {
        let _ = write!(out, " wrapped add={:?} stop={}", w.add, w.stop);
    }
    out.push('\n');
    for k in &n.kids {
        show(k, indent + 2, out);
    }
}

pub(crate) type Path = Vec<usize>;

/// All nodes in document order with their paths.
fn all<'a>(n: &'a Node, path: &mut Path, out: &mut Vec<(Path, &'a Node)>) {
    out.push((path.clone(), n));
    for (i, k) in n.kids.iter().enumerate() {
        path.push(i);
        all(k, path, out);
        path.pop();
    }
}
pub(crate) fn nodes(n: &Node) -> Vec<(Path, &Node)> {
    let mut v = vec![];
    all(n, &mut vec![], &mut v);
    v
}
pub(crate) fn at<'a>(n: &'a mut Node, path: &[usize]) -> &'a mut Node {
    path.iter().fold(n, |n, i| &mut n.kids[*i])
}

impl Node {
    fn shown(&self) -> bool {
        self.visible && self.displayed && !(self.kind == Tooltip)
    }
    fn focusable(&self) -> bool {
        self.can_focus && !self.disabled && self.visible
    }
}

/// Tab order: focusable widgets in document order, none inside what is hidden.
fn tab_order(n: &Node, path: &mut Path, out: &mut Vec<Path>) {
    if !n.shown() {
        return;
    }
    if n.focusable() {
        out.push(path.clone());
    }
    for (i, k) in n.kids.iter().enumerate() {
        path.push(i);
        tab_order(k, path, out);
        path.pop();
    }
}
fn order(n: &Node) -> Vec<Path> {
    let mut v = vec![];
    tab_order(n, &mut vec![], &mut v);
    v
}

pub(crate) fn widget_at<R>(t: &mut WidgetTree<Msg>, path: &[usize], f: impl FnOnce(&mut dyn Widget<Msg>) -> R) -> R {
    let mut w = t.root_mut();
    for i in path {
        w = w.get_child_mut(*i).expect("a child where the tree has one");
    }
    f(w)
}

fn focused_paths(t: &mut WidgetTree<Msg>, model: &Node) -> Vec<Path> {
    nodes(model).into_iter().map(|(p, _)| p).filter(|p| widget_at(t, p, |w| w.is_focused())).collect()
}

pub(crate) fn start(g: &mut G) -> (Node, WidgetTree<Msg>, Shared) {
    let model = gen_tree(g);
    let log: Shared = Rc::default();
    g.note(|| {
        let mut s = String::from("tree:\n");
        show(&model, 2, &mut s);
        s
    });
    let t = WidgetTree::new(build(&model, &log));
    (model, t, log)
}

fn focus(g: &mut G) -> R {
    let (mut model, mut t, log) = start(g);
    let mut cur: Option<Path> = None;
    let mut moves = 0;
    let mut after_change = false;
    let mut changed_moves = 0;
    for _ in 0..g.usize(1, 14) {
        let f = order(&model);
        ensure_eq!(t.focusable_count(), f.len(), "number of focusable widgets");
        let mut set: Option<Path> = None;
        match g.weighted(&[4, 4, 3, 3, 3, 2, 2]) {
            0 => {
                let got = t.focus_next();
                let want = match &cur {
                    Some(c) => f.iter().position(|p| p > c).or(if f.is_empty() { None } else { Some(0) }),
                    None => (!f.is_empty()).then_some(0),
                };
                g.note(|| format!("focus_next -> {got:?}"));
                ensure_eq!(got, want, "focus_next from {cur:?} in the order {f:?}");
                set = want.map(|i| f[i].clone());
            }
            1 => {
                let got = t.focus_previous();
                let want = match &cur {
                    Some(c) => f.iter().rposition(|p| p < c).or(f.len().checked_sub(1)),
                    None => f.len().checked_sub(1),
                };
                g.note(|| format!("focus_previous -> {got:?}"));
                ensure_eq!(got, want, "focus_previous from {cur:?} in the order {f:?}");
                set = want.map(|i| f[i].clone());
            }
            2 => {
                let n = g.usize(0, f.len() + 1);
                let got = t.set_focus_index(n);
                g.note(|| format!("set_focus_index({n}) -> {got}"));
                ensure_eq!(got, n < f.len(), "set_focus_index({n}) of {}", f.len());
                if n < f.len() {
                    set = Some(f[n].clone());
                } else if f.is_empty() {
                    cur = None;
                    let left = focused_paths(&mut t, &model);
                    ensure!(left.is_empty(), "nothing is focusable, yet {left:?} have the focus");
                }
            }
            3 => {
                let id = g.pick(IDS);
                let got = t.focus_by_id(id);
                g.note(|| format!("focus_by_id({id}) -> {got}"));
                let all = nodes(&model);
                let want = f.iter().find(|p| all.iter().find(|(q, _)| q == *p).unwrap().1.id.as_deref() == Some(id));
                ensure_eq!(got, want.is_some(), "focus_by_id({id})");
                set = want.cloned();
            }
            k => {
                let all: Vec<(Path, Kind)> = nodes(&model).into_iter().map(|(p, n)| (p, n.kind)).collect();
                let (p, kind) = g.of(&all).clone();
                let n = at(&mut model, &p);
                match k {
                    4 if kind.can_disable() => {
                        n.disabled = !n.disabled;
                        let d = n.disabled;
                        widget_at(&mut t, &p, |w| w.set_disabled(d));
                        g.note(|| format!("set_disabled({d}) at {p:?}"));
                        after_change = true;
                    }
                    5 if kind.can_hide() => {
                        n.visible = !n.visible;
                        let v = n.visible;
                        widget_at(&mut t, &p, |w| w.set_visible(v));
                        g.note(|| format!("set_visible({v}) at {p:?}"));
                        after_change = true;
                    }
                    _ if !matches!(kind, App | Screen | Tooltip | Center | Middle) && !p.is_empty() => {
                        n.displayed = !n.displayed;
                        let d = n.displayed;
                        widget_at(&mut t, &p, |w| {
                            let mut s = w.get_style();
                            s.display = if d { Display::Block } else { Display::None };
                            w.set_style(s);
                        });
                        g.note(|| format!("display {} at {p:?}", if d { "on" } else { "none" }));
                        after_change = true;
                    }
                    _ => {}
                }
                continue;
            }
        }
        if let Some(p) = set {
            moves += 1;
            changed_moves += usize::from(std::mem::take(&mut after_change));
            let on = focused_paths(&mut t, &model);
            ensure_eq!(on, vec![p.clone()], "widgets that say they have the focus");
            let path = t.focus_path().indices().to_vec();
            ensure_eq!(path, p, "path keys are sent along");
            let idx = t.current_focus_index();
            let want_idx = order(&model).iter().position(|q| *q == p).unwrap();
            ensure_eq!(idx, want_idx, "focus index");
            cur = Some(p);
        }
        if let Some(c) = &cur {
            let n = at(&mut model, c).clone();
            let s = t.focused_sender_info();
            ensure_eq!((s.id.as_deref(), s.type_name), (n.id.as_deref(), n.name), "sender of what the focused widget produces");
            let usable = order(&model).contains(c);
            let says = t.focused_is_focusable();
            ensure_eq!(says, usable, "whether the focused widget can still take the focus");
            if n.kind == Leaf && g.bool() {
                log.borrow_mut().keys.clear();
                let m = t.dispatch_key(KeyCode::Char('k'));
                let keys = log.borrow().keys.clone();
                ensure_eq!(keys, vec![n.tag], "widgets a key reached");
                ensure_eq!(m, Some(n.tag as Msg), "answer to the key");
            }
        }
    }
    g.label_if(changed_moves > 0, "focus moved after a widget was hidden, shown, disabled or enabled");
    g.nontrivial_if(moves >= 2 && order(&model).len() >= 2);
    Ok(())
}

fn addr(w: &mut dyn Widget<Msg>) -> usize {
    w as *mut dyn Widget<Msg> as *mut () as usize
}

fn queries(g: &mut G) -> R {
    let (mut model, mut t, _log) = start(g);
    let paths: Vec<Path> = nodes(&model).into_iter().map(|(p, _)| p).collect();
    let addrs: Vec<usize> = paths.iter().map(|p| widget_at(&mut t, p, addr)).collect();
    let index = |a: usize| addrs.iter().position(|x| *x == a);
    let mut names: Vec<&'static str> = nodes(&model).iter().map(|(_, n)| n.name).filter(|n| *n != "AppWidget").collect();
    names.push("Missing");
    names.push("Alph");
    // Classes the widgets start with.
    for p in &paths {
        let have: BTreeSet<String> = widget_at(&mut t, p, |w| w.classes()).into_iter().collect();
        at(&mut model, p).classes = have;
    }
    let mut hits = 0;
    let mut several = false;
    let mut last: Option<(Option<&'static str>, Option<&'static str>)> = None;
    for _ in 0..g.usize(1, 12) {
        // The same widgets and the same class again, more often than not.
        let again = last.is_some() && g.bool();
        let (name, id) = match g.weighted(&[3, 3, 3]) {
            _ if again => last.unwrap(),
            0 => (Some(*g.of(&names)), None),
            1 => (None, Some(*g.of(IDS))),
            _ => (Some(*g.of(&names)), Some(*g.of(IDS))),
        };
        last = Some((name, id));
        let mut sel = format!("{}{}", name.unwrap_or(""), id.map(|i| format!("#{i}")).unwrap_or_default());
        if g.chance(1, 6) {
            sel = format!("  {sel} ");
        }
        let class = g.pick(CLASSES).to_string();
        let filtered = g.chance(1, 3);
        let want: Vec<usize> = nodes(&model)
            .iter()
            .enumerate()
            .filter(|(_, (_, n))| name.is_none_or(|x| n.name == x) && id.is_none_or(|x| n.id.as_deref() == Some(x)))
            .map(|(i, _)| i)
            .collect();
        let passing: Vec<usize> = want.iter().copied().filter(|i| !filtered || at(&mut model, &paths[*i]).classes.contains(&class)).collect();
        hits += want.len();
        several |= want.len() > 1;
        g.note(|| format!("query {sel:?}{}", if filtered { format!(" filtered by class {class}") } else { String::new() }));

        macro_rules! q {
            () => {{
                let q = t.query(&sel);
                let c = class.clone();
                if filtered { q.filter(move |w| w.has_class(&c)) } else { q }
            }};
        }
        match g.weighted(&[3, 2, 2, 2, 3, 8, 1, 1]) {
            0 => {
                let mut seen = vec![];
                q!().for_each(|w| seen.push(addr(w)));
                let seen: Vec<_> = seen.into_iter().map(index).collect();
                ensure_eq!(seen, passing.iter().map(|i| Some(*i)).collect::<Vec<_>>(), "for_each");
                let n = q!().count();
                ensure_eq!(n, passing.len(), "count");
            }
            1 => {
                let first = q!().first(addr).map(index);
                ensure_eq!(first, passing.first().map(|i| Some(*i)), "first");
                let last = q!().last(addr).map(index);
                ensure_eq!(last, passing.last().map(|i| Some(*i)), "last");
            }
            2 => {
                let one = t.query_one(&sel, addr).map(index);
                ensure_eq!(one, want.first().map(|i| Some(*i)), "query_one");
            }
            3 => {
                if let Some(id) = id {
                    let one = t.with_widget_by_id(id, addr).map(index);
                    let want = nodes(&model).iter().position(|(_, n)| n.id.as_deref() == Some(id));
                    ensure_eq!(one, want.map(Some), "with_widget_by_id({id})");
                }
                if let Some(ty) = name {
                    let one = t.with_widget_by_type(ty, addr).map(index);
                    let want = nodes(&model).iter().position(|(_, n)| n.name == ty);
                    ensure_eq!(one, want.map(Some), "with_widget_by_type({ty})");
                }
            }
            4 => {
                macro_rules! typed {
                    ($($t:ty => $p:expr, $what:expr;)*) => {
                        $({
                            let got = t.query_one_as::<$t, _, _>(&sel, |w| w as *mut $t as usize).map(index);
                            let all = nodes(&model);
                            let p: fn(&Node) -> bool = $p;
                            let want = want.iter().copied().find(|i| p(all[*i].1));
                            ensure_eq!(got, want.map(Some), "query_one_as::<{}>", $what);
                        })*
                    };
                }
                typed! {
                    self::Leaf => |n| n.kind == Leaf, "Leaf";
                    Wrap => |n| n.wrap.is_some(), "Wrap";
                    self::Container<Msg> => |n| n.kind == Container && n.wrap.is_none(), "Container";
                    self::Vertical<Msg> => |n| n.kind == Vertical && n.wrap.is_none(), "Vertical";
                    self::Horizontal<Msg> => |n| n.kind == Horizontal && n.wrap.is_none(), "Horizontal";
                    VerticalScroll<Msg> => |n| n.kind == VScroll && n.wrap.is_none(), "VerticalScroll";
                    HorizontalScroll<Msg> => |n| n.kind == HScroll && n.wrap.is_none(), "HorizontalScroll";
                    self::Screen<Msg> => |n| n.kind == Screen && n.wrap.is_none(), "Screen";
                    self::Button<Msg> => |n| n.kind == Button, "Button";
                    self::Input<Msg> => |n| n.kind == Input, "Input";
                    self::Label<Msg> => |n| n.kind == Label, "Label";
                    self::Static<Msg> => |n| n.kind == Static, "Static";
                    OptionList<Msg> => |n| n.kind == Options, "OptionList";
                }
            }
            5 => {
                let how = g.below(5);
                let other = g.pick(CLASSES).to_string();
                for i in &passing {
                    let n = at(&mut model, &paths[*i]);
                    match how {
                        0 | 3 => {
                            n.classes.insert(other.clone());
                        }
                        1 | 4 => {
                            n.classes.remove(&other);
                        }
                        _ => {
                            if !n.classes.remove(&other) {
                                n.classes.insert(other.clone());
                            }
                        }
                    }
                }
                let mut q = q!();
                match how {
                    0 => q.add_class(&other),
                    1 => q.remove_class(&other),
                    2 => q.toggle_class(&other),
                    3 => q.set_class(true, &other),
                    _ => q.set_class(false, &other),
                }
                drop(q);
                g.note(|| format!("  class change {how} with {other}"));
                for p in &paths {
                    let n = at(&mut model, p).clone();
                    if n.kind.has_classes() {
                        let have: BTreeSet<String> = widget_at(&mut t, p, |w| w.classes()).into_iter().collect();
                        ensure_eq!(have, n.classes, "classes of {} at {p:?}", n.name);
                        let meta: BTreeSet<String> = widget_at(&mut t, p, |w| w.get_meta().classes).into_iter().collect();
                        ensure_eq!(meta, n.classes, "classes of {} at {p:?} as selectors see them", n.name);
                        let has = widget_at(&mut t, p, |w| w.has_class(&other));
                        ensure_eq!(has, n.classes.contains(&other), "has_class({other}) of {} at {p:?}", n.name);
                    } else {
                        at(&mut model, p).classes.clear();
                    }
                }
            }
            6 => {
                let d = g.bool();
                q!().set_disabled(d);
                for i in &passing {
                    let n = at(&mut model, &paths[*i]);
                    if n.kind.can_disable() {
                        n.disabled = d;
                    }
                }
                for p in &paths {
                    let n = at(&mut model, p).clone();
                    if n.kind.can_disable() {
                        let have = widget_at(&mut t, p, |w| w.is_disabled());
                        ensure_eq!(have, n.disabled, "disabled state of {} at {p:?}", n.name);
                    }
                }
            }
            _ => {
                t.root_mut().mark_clean();
                for p in &paths {
                    widget_at(&mut t, p, |w| w.mark_clean());
                }
                q!().mark_dirty();
                for (i, p) in paths.iter().enumerate() {
                    let kind = at(&mut model, p).kind;
                    let marked = passing.iter().any(|m| paths[*m].starts_with(p) || (p.starts_with(&paths[*m]) && *m != i));
                    let dirty = widget_at(&mut t, p, |w| w.is_dirty());
                    if passing.contains(&i) && kind != Tooltip {
                        ensure!(dirty, "{} at {p:?} was marked dirty", at(&mut model, p).name);
                    } else if !marked {
                        ensure!(!dirty, "{} at {p:?} is dirty although neither it nor a relative was marked", at(&mut model, p).name);
                    }
                }
            }
        }
    }
    g.label_if(several, "a selector with several matches");
    g.nontrivial_if(hits > 1);
    Ok(())
}

fn bubbling(g: &mut G) -> R {
    let (model, mut t, log) = start(g);
    let f = order(&model);
    if f.is_empty() {
        return Ok(());
    }
    let mut through = 0;
    for _ in 0..g.usize(1, 4) {
        let n = g.usize(0, f.len() - 1);
        ensure!(t.set_focus_index(n), "focus {n} of {}", f.len());
        let path = &f[n];
        let msg = g.int(-5, 50);
        let id = g.bool().then(|| g.pick(IDS));
        let mut env = MessageEnvelope::new(msg, id, "Source");
        let stopped_already = g.chance(1, 10);
        if stopped_already {
            env.stop();
        }
        log.borrow_mut().handled.clear();
        let out = t.bubble_message(env);
        let mut want_msg = msg;
        let mut visited = vec![];
        let mut going = !stopped_already;
        for d in (0..path.len()).rev() {
            if !going {
                break;
            }
            let n = path[..d].iter().fold(&model, |n, i| &n.kids[*i]);
            if let Some(r) = n.wrap {
                visited.push(n.tag);
                if let Some(a) = r.add {
                    want_msg = want_msg * 3 + a;
                }
                if r.stop {
                    going = false;
                }
            }
        }
        g.note(|| format!("message {msg} from {path:?}"));
        through = through.max(visited.len());
        let handled = log.borrow().handled.clone();
        ensure_eq!(handled, visited, "ancestors that were offered the message, nearest first");
        ensure_eq!(out.message, want_msg, "message after the ancestors");
        ensure_eq!(out.is_bubbling(), going, "still bubbling");
        ensure_eq!((out.sender_id.as_deref(), out.sender_type.as_str()), (id, "Source"), "sender");
    }
    g.label_if(through >= 3, "three or more ancestors took part");
    g.nontrivial_if(through >= 2);
    Ok(())
}

pub static P17: Property = Property {
    id: "C17",
    rule: "at least two successful focus moves and two focusable widgets",
    assumptions: &["disabling is exercised on Switch, Button, Input and a leaf of the harness; hiding with set_visible on Switch and the leaf; display:none everywhere"],
    parts: &[Part { name: "focus", quick: 600_000, thorough: 12_000_000, f: focus }],
};
pub static P18: Property = Property {
    id: "C18",
    rule: "selectors of the history matched more than one widget in total",
    assumptions: &["class changes are compared on widget kinds that keep classes (not Switch, Grid, ItemGrid, Center, Middle, Screen)"],
    parts: &[Part { name: "queries", quick: 600_000, thorough: 12_000_000, f: queries }],
};
pub static P19: Property = Property {
    id: "C19",
    rule: "a message passed at least two ancestors that handle messages",
    assumptions: &[],
    parts: &[Part { name: "bubbling", quick: 1_200_000, thorough: 12_000_000, f: bubbling }],
};
