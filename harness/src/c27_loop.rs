//! C27: the running application. The real event loop runs on a paused clock with a stand-in terminal; next to it a
//! second instance of the same application is driven by hand, one step per event, the way the loop is documented to
//! do it. What the terminal shows must be a fresh picture of the second instance, and both must have been told the
//! same things in the same order.
use crate::c11_canvas::{Term, canvas_cells};
use crate::engine::{Fail, G, Part, Property, R};
use crate::{ensure, ensure_eq};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::time::Duration;
use tcss::parser::StyleSheet;
use tcss::types::{ComputedStyle, RgbaColor, StyleOverride, Theme, Visibility};
use tcss::{WidgetMeta, WidgetStates};
use textual::containers::{Center, Middle, item_grid::ItemGrid};
use textual::style_resolver::resolve_styles;
use textual::tree::WidgetTree;
use textual::widget::app_widget::AppWidget;
use textual::{
    App, AppContext, Button, Canvas, CommandPalette, Container, EventContext, Grid, Horizontal, HorizontalScroll, Input, Label, MessageEnvelope,
    MountContext, OptionList, Region, Screen, ScrollableContainer, Size, Static, Switch, Tooltip, Vertical, VerticalScroll, Widget,
};
use tokio::sync::mpsc;

type Msg = u32;
type Rx = mpsc::UnboundedReceiver<MessageEnvelope<Msg>>;
type Tx = mpsc::UnboundedSender<MessageEnvelope<Msg>>;

const CSS: &str = "
Screen { background: #101820; color: #f0e0d0; }
Alpha { width: 4; height: 1; color: #eeccaa; }
Beta { width: 5; height: 2; background: #223344; }
Switch { width: 10; height: 1; }
Button { width: 8; height: 1; border: none; min-width: 4; }
Input { width: 10; height: 1; border: none; padding: 0; }
OptionList { width: 8; height: 2; border: none; padding: 0; }
Static { width: 9; height: 1; }
Label { width: 6; height: 1; }
Container { width: 18; height: 6; }
Vertical { width: 16; height: 5; background: #201020; }
Horizontal { width: 20; height: 3; }
Grid { width: 16; height: 4; grid-size: 2; }
ItemGrid { width: 18; height: 4; }
ScrollableContainer { width: 14; height: 4; }
VerticalScroll { width: 14; height: 4; }
HorizontalScroll { width: 14; height: 4; }
Center { width: 18; height: 2; }
Middle { width: 12; height: 3; }
Alpha:hover { background: #115511; }
Beta:focus { color: #ff0044; }
Vertical:hover Beta { color: #123456; }
Switch:focus { background: #303000; }
Switch:hover { color: #00ffff; }
.x { background: #550000; }
.x Alpha { color: #00ff88; }
.y { width: 7; }
.y:focus { background: #000055; }
:disabled { color: #777777; }
.wide Beta { background: #009900; }
.tall { height: 3; }
#a.x { color: #ffff00; }
.-small .y { background: #00aaaa; }
.-big Label { color: #ff00ff; }
.-low Label { background: #606000; }
.-high Alpha { color: #a0a0ff; }
.-low.-small Static { color: #00ffaa; }
.-huge Beta { color: #ffaa00; }
";

/// Widths and heights at which the screen's classes change. The last entry that applies counts.
static BP: [&[(u16, &str)]; 5] = [
    &[],
    &[(0, "-small"), (20, "-mid"), (30, "-big")],
    &[(12, "-big"), (0, "-low"), (9, "-high")],
    &[(6, "-low"), (10, "-high"), (24, "-huge")],
    &[(30, "-small"), (5, "-huge")],
];

fn class_of(table: usize, n: u16) -> Option<String> {
    BP[table].iter().rev().find(|(t, _)| *t <= n).map(|(_, c)| c.to_string())
}

/// The actions asked for by links and buttons, in tree order.
fn asked(w: &mut dyn Widget<Msg>, out: &mut Vec<String>) {
    out.extend(w.take_pending_action());
    for i in 0..w.child_count() {
        if let Some(c) = w.get_child_mut(i) {
            asked(c, out);
        }
    }
}

fn no_hover(w: &mut dyn Widget<Msg>) {
    w.clear_hover();
    for i in 0..w.child_count() {
        if let Some(c) = w.get_child_mut(i) {
            no_hover(c);
        }
    }
}

/// The tooltip of the first widget in tree order that is hovered and has one.
fn tip_of(w: &mut dyn Widget<Msg>) -> Option<String> {
    if w.get_state().contains(WidgetStates::HOVER) && w.tooltip().is_some() {
        return w.tooltip();
    }
    (0..w.child_count()).find_map(|i| w.get_child_mut(i).and_then(tip_of))
}

// ------------------------------------------------------------------------------------------------ the widget

/// A widget of the application's own that paints everything it knows about itself.
struct Leaf {
    name: &'static str,
    tag: u32,
    id: Option<String>,
    can_focus: bool,
    focused: bool,
    hovered: bool,
    disabled: bool,
    visible: bool,
    dirty: bool,
    keys: u32,
    clicks: u32,
    tip: Option<String>,
    inline: Option<StyleOverride>,
    classes: Vec<String>,
    style: ComputedStyle,
    size: Option<Size>,
}

impl Widget<Msg> for Leaf {
    fn render(&self, c: &mut Canvas, r: Region) {
        if !self.visible || self.style.visibility == Visibility::Hidden {
            return;
        }
        let text = format!(
            "{}{}{}{}{}",
            (b'A' + (self.tag % 26) as u8) as char,
            (self.keys * 7 + self.clicks) % 10,
            if self.focused { "F" } else if self.disabled { "D" } else { "." },
            if self.hovered { "H" } else { "." },
            self.size.map(|s| (s.width as u32 + 3 * s.height as u32) % 10).unwrap_or(0)
        );
        c.push_clip(r);
        for y in 0..r.height {
            for x in 0..r.width {
                let ch = text.chars().nth(x as usize).unwrap_or('~');
                c.put_char(r.x + x, r.y + y, ch, self.style.color.clone(), self.style.effective_background(), Default::default());
            }
        }
        c.pop_clip();
    }
    fn desired_size(&self) -> Size {
        Size { width: 4, height: 1 }
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: self.name, type_names: vec![self.name, "Widget"], id: self.id.clone(), classes: self.classes.clone(), states: self.get_state() }
    }
    fn get_state(&self) -> WidgetStates {
        let mut s = WidgetStates::empty();
        s.set(WidgetStates::FOCUS, self.focused);
        s.set(WidgetStates::HOVER, self.hovered);
        s.set(WidgetStates::DISABLED, self.disabled);
        s
    }
    fn on_resize(&mut self, s: Size) {
        self.size = Some(s);
    }
    fn set_focus(&mut self, f: bool) {
        self.dirty |= self.focused != f;
        self.focused = f;
    }
    fn set_hover(&mut self, h: bool) -> bool {
        let changed = self.hovered != h;
        self.dirty |= changed;
        self.hovered = h;
        changed
    }
    fn clear_hover(&mut self) {
        self.set_hover(false);
    }
    fn set_inline_style(&mut self, s: StyleOverride) {
        self.dirty = true;
        self.inline = Some(s);
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        self.inline.as_ref()
    }
    fn clear_inline_style(&mut self) {
        self.dirty = true;
        self.inline = None;
    }
    fn is_focused(&self) -> bool {
        self.focused
    }
    fn is_focusable(&self) -> bool {
        self.can_focus && !self.disabled && self.visible
    }
    fn is_visible(&self) -> bool {
        self.visible
    }
    fn set_visible(&mut self, v: bool) {
        self.dirty = true;
        self.visible = v;
    }
    fn is_disabled(&self) -> bool {
        self.disabled
    }
    fn set_disabled(&mut self, d: bool) {
        self.dirty = true;
        self.disabled = d;
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn mark_dirty(&mut self) {
        self.dirty = true;
    }
    fn mark_clean(&mut self) {
        self.dirty = false;
    }
    fn tooltip(&self) -> Option<String> {
        self.tip.clone()
    }
    fn set_tooltip(&mut self, t: Option<String>) {
        self.tip = t;
    }
    fn on_event(&mut self, k: KeyCode) -> Option<Msg> {
        self.keys += 1;
        match k {
            KeyCode::Char(c) => Some(self.tag * 8 + c as u32 % 4),
            KeyCode::Enter => Some(self.tag * 8 + 4),
            _ => None,
        }
    }
    fn on_mouse(&mut self, e: MouseEvent, r: Region) -> Option<Msg> {
        if !r.contains_point(e.column as i32, e.row as i32) {
            return None;
        }
        match e.kind {
            MouseEventKind::Moved => {
                self.set_hover(true);
                None
            }
            MouseEventKind::Down(_) if !self.disabled => {
                self.clicks += 1;
                Some(self.tag * 8 + 5)
            }
            _ => None,
        }
    }
    fn id(&self) -> Option<&str> {
        self.id.as_deref()
    }
    fn type_name(&self) -> &'static str {
        self.name
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
        Some(self)
    }
    fn add_class(&mut self, c: &str) {
        if !self.has_class(c) {
            self.dirty = true;
            self.classes.push(c.into());
        }
    }
    fn remove_class(&mut self, c: &str) {
        self.dirty = true;
        self.classes.retain(|x| x != c);
    }
    fn has_class(&self, c: &str) -> bool {
        self.classes.iter().any(|x| x == c)
    }
    fn set_classes(&mut self, c: &str) {
        self.dirty = true;
        self.classes = c.split_whitespace().map(String::from).collect();
    }
    fn classes(&self) -> Vec<String> {
        self.classes.clone()
    }
}

// ------------------------------------------------------------------------------------------------ the world

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Alpha,
    Beta,
    Switch,
    Button,
    ActionButton,
    Input,
    Options,
    Static,
    Link,
    Label,
    Container,
    Vertical,
    Horizontal,
    Grid,
    ItemGrid,
    Scrollable,
    VScroll,
    HScroll,
    Center,
    Middle,
}

#[derive(Clone, Debug)]
struct Node {
    k: K,
    tag: u32,
    id: Option<&'static str>,
    can_focus: bool,
    disabled: bool,
    tip: Option<&'static str>,
    kids: Vec<Node>,
}

const IDS: &[&str] = &["a", "b", "c", "d", "e"];
const CLASSES: &[&str] = &["x", "y", "wide", "tall"];
const TIPS: &[&str] = &["tip", "help me", "two\nlines", "a longer explanation", "x"];
const ACTIONS: &[&str] = &["one", "app.two", "bell", "app.bell", "quit", "unknown"];

#[derive(Clone, Debug)]
enum Act {
    Nothing,
    Class(&'static str, &'static str),
    ClassAll(&'static str, &'static str),
    Disable(&'static str, bool),
    Visible(&'static str, bool),
    Focus(&'static str),
    FocusNth(usize),
    AppFocus(usize),
    Recompose(usize),
    Post(Msg),
    Timer(u64, Msg),
    Inline(&'static str, (u8, u8, u8)),
    Text(&'static str),
    Tip(&'static str, Option<&'static str>),
    Quit,
}

struct World {
    variants: Vec<Vec<Node>>,
    /// what the app does about a message, key or action: looked up by number
    table: Vec<Act>,
    mount: Vec<Act>,
    tooltip_delay: u64,
    /// tables for the width and the height
    breakpoints: (usize, usize),
}

fn gen_node(g: &mut G, depth: usize, next: &mut u32) -> Node {
    use K::*;
    let k = if depth == 0 || *next > 14 || g.chance(1, 3) {
        *g.of(&[Alpha, Alpha, Beta, Beta, Switch, Button, ActionButton, Input, Options, Static, Link, Label])
    } else {
        *g.of(&[Container, Vertical, Horizontal, Grid, ItemGrid, Scrollable, VScroll, HScroll, Center, Middle])
    };
    let tag = *next;
    *next += 1;
    let n = match k {
        Center | Middle => 1,
        Container | Vertical | Horizontal | Grid | ItemGrid | Scrollable | VScroll | HScroll => g.usize(1, 4),
        _ => 0,
    };
    Node {
        k,
        tag,
        id: g.chance(2, 3).then(|| *g.of(IDS)),
        can_focus: g.chance(3, 4),
        disabled: matches!(k, Alpha | Beta | Switch | Button | Input) && g.chance(1, 8),
        tip: (matches!(k, Alpha | Beta | Static | Label) && g.chance(3, 4)).then(|| *g.of(TIPS)),
        kids: (0..n).map(|_| gen_node(g, depth - 1, next)).collect(),
    }
}

fn gen_act(g: &mut G, quit: bool) -> Act {
    let id = |g: &mut G| *g.of(IDS);
    match g.weighted(&[3, 3, 1, 2, 2, 3, 1, 2, 2, 2, 2, 1, 2, 1, quit as u64]) {
        0 => Act::Nothing,
        1 => Act::Class(id(g), *g.of(CLASSES)),
        2 => Act::ClassAll(*g.of(&["Alpha", "Beta", "Vertical", ".x", "Switch", "Label"]), *g.of(CLASSES)),
        3 => Act::Disable(id(g), g.bool()),
        4 => Act::Visible(id(g), g.bool()),
        5 => Act::Focus(id(g)),
        6 => Act::FocusNth(g.usize(0, 5)),
        7 => Act::AppFocus(g.usize(0, 5)),
        8 => Act::Recompose(g.usize(0, 2)),
        9 => Act::Post(g.below(60) as Msg),
        10 => Act::Timer(g.below(12), g.below(60) as Msg),
        11 => Act::Inline(id(g), (g.u8(), g.u8(), g.u8())),
        12 => Act::Text(id(g)),
        13 => Act::Tip(id(g), g.bool().then(|| *g.of(TIPS))),
        _ => Act::Quit,
    }
}

fn build(n: &Node) -> Box<dyn Widget<Msg>> {
    let mut kids: Vec<Box<dyn Widget<Msg>>> = n.kids.iter().map(build).collect();
    macro_rules! id {
        ($w:expr) => {{
            let w = $w;
            match n.id {
                Some(id) => Box::new(w.with_id(id)) as Box<dyn Widget<Msg>>,
                None => Box::new(w),
            }
        }};
    }
    let t = n.tag * 8;
    let mut w: Box<dyn Widget<Msg>> = match n.k {
        K::Alpha | K::Beta => Box::new(Leaf {
            name: if n.k == K::Alpha { "Alpha" } else { "Beta" },
            tag: n.tag,
            id: n.id.map(String::from),
            can_focus: n.can_focus,
            focused: false,
            hovered: false,
            disabled: false,
            visible: true,
            dirty: true,
            keys: 0,
            clicks: 0,
            tip: None,
            inline: None,
            classes: vec![],
            style: ComputedStyle::default(),
            size: None,
        }),
        K::Switch => id!(Switch::new(n.tag % 2 == 0, move |v: bool| t + v as Msg)),
        K::Button => id!(Button::<Msg>::new("go").with_message(t + 2)),
        K::ActionButton => id!(Button::<Msg>::new("act").with_action(ACTIONS[n.tag as usize % ACTIONS.len()])),
        K::Input => id!(Input::<Msg>::new().with_placeholder("type")),
        K::Options => id!(OptionList::<Msg>::new(vec!["one".into(), "two".into(), "three".into()])),
        K::Static => id!(Static::<Msg>::new("static")),
        K::Link => id!(Static::<Msg>::new(format!("a [@click={}]link[/]", ACTIONS[n.tag as usize % ACTIONS.len()]))),
        K::Label => id!(Label::<Msg>::new("label")),
        K::Container => id!(Container::new(kids)),
        K::Vertical => id!(Vertical::new(kids)),
        K::Horizontal => id!(Horizontal::new(kids)),
        K::Grid => id!(Grid::new(kids)),
        K::ItemGrid => id!(ItemGrid::new(kids)),
        K::Scrollable => id!(ScrollableContainer::new(kids)),
        K::VScroll => id!(VerticalScroll::new(kids)),
        K::HScroll => id!(HorizontalScroll::new(kids)),
        K::Center => Box::new(Center::new(vec![kids.remove(0)])),
        K::Middle => Box::new(Middle::new(vec![kids.remove(0)])),
    };
    if n.disabled {
        w.set_disabled(true);
    }
    if let Some(t) = n.tip {
        w.set_tooltip(Some(t.into()));
    }
    w
}

fn show(n: &Node, indent: usize, out: &mut String) {
    use std::fmt::Write;
    let _ = write!(out, "{:indent$}{:?} tag={}", "", n.k, n.tag);
    if let Some(id) = n.id {
        let _ = write!(out, " #{id}");
    }
    if n.disabled {
        out.push_str(" disabled");
    }
    if matches!(n.k, K::Alpha | K::Beta) && !n.can_focus {
        out.push_str(" not focusable");
    }
    if let Some(t) = n.tip {
        let _ = write!(out, " tip={t:?}");
    }
    out.push('\n');
    for k in &n.kids {
        show(k, indent + 2, out);
    }
}

// ------------------------------------------------------------------------------------------------ the application

#[derive(Clone)]
enum Clock {
    Real(tokio::time::Instant),
    Shadow(Rc<Cell<u64>>),
}

impl Clock {
    fn now(&self) -> u64 {
        match self {
            Clock::Real(t0) => (tokio::time::Instant::now() - *t0).as_millis() as u64,
            Clock::Shadow(c) => c.get(),
        }
    }
}

struct TestApp<const PALETTE: bool> {
    world: Rc<World>,
    clock: Clock,
    log: Rc<RefCell<Vec<String>>>,
    focus: usize,
    variant: usize,
    recompose: Rc<Cell<bool>>,
    quit: bool,
    posts: usize,
    texts: usize,
    due: Vec<u64>,
    /// of the hand-driven instance: what a real timer would be
    timers: Option<Rc<RefCell<Vec<(u64, Msg)>>>>,
}

/// What the three kinds of context have in common.
trait Ctx {
    fn by_id(&mut self, id: &str, f: &mut dyn FnMut(&mut dyn Widget<Msg>));
    fn all(&mut self, sel: &str, class: &str);
    fn text(&mut self, id: &str, text: &str);
    fn post(&mut self, m: Msg);
    fn timer(&mut self, d: Duration, m: Msg);
    fn focus(&mut self, id: &str);
    fn focus_nth(&mut self, i: usize);
}
macro_rules! ctx {
    ($t:ident, $focus:expr, $nth:expr) => {
        impl Ctx for $t<'_, Msg> {
            fn by_id(&mut self, id: &str, f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {
                self.with_widget_by_id(id, |w| f(w));
            }
            fn all(&mut self, sel: &str, class: &str) {
                self.query(sel).toggle_class(class);
            }
            fn text(&mut self, id: &str, text: &str) {
                self.query_one_as::<Static<Msg>, _, _>(&format!("#{id}"), |s| s.update(text));
            }
            fn post(&mut self, m: Msg) {
                $t::post(self, m)
            }
            fn timer(&mut self, d: Duration, m: Msg) {
                $t::set_timer(self, d, m)
            }
            fn focus(&mut self, id: &str) {
                $focus(self, id)
            }
            fn focus_nth(&mut self, i: usize) {
                $nth(self, i)
            }
        }
    };
}
ctx!(EventContext, |s: &mut EventContext<Msg>, id: &str| { s.focus_by_id(id); }, |s: &mut EventContext<Msg>, i| { s.set_focus_index(i); });
ctx!(MountContext, |_: &mut MountContext<Msg>, _: &str| {}, |_: &mut MountContext<Msg>, _| {});

impl<const PALETTE: bool> TestApp<PALETTE> {
    fn act(&mut self, a: Act, ctx: &mut dyn Ctx) {
        match a {
            Act::Nothing => {}
            Act::Class(id, c) => ctx.by_id(id, &mut |w| w.toggle_class(c)),
            Act::ClassAll(s, c) => ctx.all(s, c),
            Act::Disable(id, v) => ctx.by_id(id, &mut |w| w.set_disabled(v)),
            Act::Visible(id, v) => ctx.by_id(id, &mut |w| w.set_visible(v)),
            Act::Focus(id) => ctx.focus(id),
            Act::FocusNth(i) => ctx.focus_nth(i),
            Act::AppFocus(i) => self.focus = i,
            Act::Recompose(v) => {
                self.variant = v % self.world.variants.len();
                self.recompose.set(true);
            }
            Act::Post(m) => {
                if self.posts < 25 {
                    self.posts += 1;
                    ctx.post(m);
                }
            }
            Act::Timer(k, m) => {
                if self.posts < 25 {
                    self.posts += 1;
                    // Distinct times, none of them a tick's or an input event's.
                    let now = self.clock.now();
                    let mut due = now + 1 + k * 10;
                    while matches!(due % 10, 0 | 3) || self.due.contains(&due) {
                        due += 1;
                    }
                    self.due.push(due);
                    match &self.timers {
                        None => ctx.timer(Duration::from_millis(due - now), m),
                        Some(t) => t.borrow_mut().push((due, m)),
                    }
                }
            }
            Act::Inline(id, (r, g, b)) => ctx.by_id(id, &mut |w| w.set_inline_style(StyleOverride { background: Some(RgbaColor::rgb(r, g, b)), ..Default::default() })),
            Act::Text(id) => {
                self.texts += 1;
                ctx.text(id, &format!("text {}", self.texts));
            }
            Act::Tip(id, t) => ctx.by_id(id, &mut |w| w.set_tooltip(t.map(String::from))),
            Act::Quit => self.quit = true,
        }
    }
    fn react(&mut self, n: usize, ctx: &mut dyn Ctx) {
        let a = self.world.table[n % self.world.table.len()].clone();
        self.act(a, ctx)
    }
    fn told(&self, s: String) {
        self.log.borrow_mut().push(s);
    }
}

impl<const PALETTE: bool> App for TestApp<PALETTE> {
    type Message = Msg;
    const CSS: &'static str = CSS;
    const ENABLE_COMMAND_PALETTE: bool = PALETTE;

    fn compose(&self) -> Vec<Box<dyn Widget<Msg>>> {
        self.recompose.set(false);
        self.world.variants[self.variant].iter().map(build).collect()
    }
    fn handle_message(&mut self, e: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        self.told(format!("message {} from {:?} {}", e.message, e.sender_id, e.sender_type));
        self.react(e.message as usize, ctx);
    }
    fn on_key(&mut self, key: KeyCode, ctx: &mut EventContext<Msg>) {
        self.told(format!("key {key:?}"));
        if let KeyCode::Char(c) = key {
            self.react(c as usize * 5, ctx);
        }
    }
    fn on_action(&mut self, action: &str, ctx: &mut EventContext<Msg>) -> bool {
        self.told(format!("action {action}"));
        match action {
            "one" => self.react(1, ctx),
            "app.two" => self.react(2, ctx),
            _ => return false,
        }
        true
    }
    fn should_quit(&self) -> bool {
        self.quit
    }
    fn request_quit(&mut self) {
        self.told("quit requested".into());
        self.quit = true;
    }
    fn reset_quit(&mut self) {
        self.quit = false;
    }
    fn bell(&mut self) {
        self.told("bell".into());
    }
    fn focus_index(&self) -> usize {
        self.focus
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) {
        self.told("mount".into());
        for a in self.world.mount.clone() {
            self.act(a, ctx);
        }
    }
    fn needs_recompose(&self) -> bool {
        self.recompose.get()
    }
    fn tooltip_delay(&self) -> Duration {
        Duration::from_millis(self.world.tooltip_delay)
    }
    fn horizontal_breakpoints(&self) -> &'static [(u16, &'static str)] {
        BP[self.world.breakpoints.0]
    }
    fn vertical_breakpoints(&self) -> &'static [(u16, &'static str)] {
        BP[self.world.breakpoints.1]
    }
}

fn app<const P: bool>(world: &Rc<World>, clock: Clock, timers: Option<Rc<RefCell<Vec<(u64, Msg)>>>>) -> TestApp<P> {
    TestApp {
        world: world.clone(),
        clock,
        log: Rc::default(),
        focus: 0,
        variant: 0,
        recompose: Rc::default(),
        quit: false,
        posts: 0,
        texts: 0,
        due: vec![],
        timers,
    }
}

// ------------------------------------------------------------------------------------------------ the hand-driven one

thread_local! {
    static SHEETS: RefCell<HashMap<Vec<&'static str>, Rc<StyleSheet>>> = RefCell::default();
    static THEME: Theme = Theme::standard_themes()["textual-dark"].clone();
}

fn defaults(w: &mut dyn Widget<Msg>, out: &mut Vec<&'static str>) {
    let c = w.default_css();
    if !c.is_empty() && !out.contains(&c) {
        out.push(c);
    }
    w.for_each_child(&mut |k| defaults(k, out));
}

/// The style sheet an application with these widgets has: the base rules, the widgets' own, and then the application's.
fn sheet(w: &mut dyn Widget<Msg>) -> Rc<StyleSheet> {
    let mut d = vec![];
    defaults(w, &mut d);
    SHEETS.with(|s| {
        s.borrow_mut()
            .entry(d)
            .or_insert_with_key(|d| {
                let text = format!("{}\n{}\n{CSS}", <Screen<Msg> as Widget<Msg>>::base_widget_css(), d.join("\n"));
                Rc::new(tcss::parser::parse_stylesheet(&text).expect("the style sheet parses"))
            })
            .clone()
    })
}

#[derive(Default)]
struct Tip {
    deadline: Option<u64>,
    text: Option<String>,
    shown: bool,
    pos: Option<(i32, i32)>,
}

struct Shadow<const P: bool> {
    app: TestApp<P>,
    tree: WidgetTree<Msg>,
    size: (u16, u16),
    tx: Tx,
    rx: Rx,
    now: Rc<Cell<u64>>,
    timers: Rc<RefCell<Vec<(u64, Msg)>>>,
    tip: Tip,
    last_focus: usize,
    picture: Vec<crate::c11_canvas::MCell>,
    sheet: Rc<StyleSheet>,
    tips_seen: usize,
    recomposed: usize,
    wrong: Option<String>,
}

fn compose<const P: bool>(app: &TestApp<P>) -> WidgetTree<Msg> {
    let (bp, vp) = (app.horizontal_breakpoints(), app.vertical_breakpoints());
    let mut kids: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Screen::new(app.compose()).with_horizontal_breakpoints(bp).with_vertical_breakpoints(vp)), Box::new(Tooltip::new())];
    if P {
        kids.push(Box::new(CommandPalette::new()));
    }
    WidgetTree::new(Box::new(AppWidget::new(kids)))
}

impl<const P: bool> Shadow<P> {
    fn new(world: &Rc<World>, size: (u16, u16)) -> Self {
        let now: Rc<Cell<u64>> = Rc::default();
        let timers: Rc<RefCell<Vec<(u64, Msg)>>> = Rc::default();
        let app = app::<P>(world, Clock::Shadow(now.clone()), Some(timers.clone()));
        let (tx, rx) = mpsc::unbounded_channel();
        let tree = compose(&app);
        let mut s = Shadow { app, tree, size, tx, rx, now, timers, tip: Tip::default(), last_focus: 0, picture: vec![], sheet: Rc::new(StyleSheet::default()), tips_seen: 0, recomposed: 0, wrong: None };
        s.enter();
        let tx = s.tx.clone();
        s.app.on_mount(&mut MountContext::new(AppContext::new(tx), &mut s.tree));
        s.settle();
        s
    }
    /// A tree just composed: its size, focus and styles.
    fn enter(&mut self) {
        self.tree.root_mut().on_resize(Size::new(self.size.0, self.size.1));
        self.focus();
        self.sheet = sheet(self.tree.root_mut());
        self.restyle();
    }
    /// The application's focus index, or the first focusable widget if there is no such one.
    fn focus(&mut self) {
        self.last_focus = self.app.focus;
        if !self.tree.set_focus_index(self.last_focus) {
            self.tree.set_focus_index(0);
        }
    }
    /// The screen's classes are those of its size.
    fn classes(&mut self) {
        let Some(screen) = self.tree.root_mut().get_child_mut(0) else { return };
        let mut got = screen.get_meta().classes;
        let (h, v) = self.app.world.breakpoints;
        let mut want: Vec<String> = class_of(h, self.size.0).into_iter().chain(class_of(v, self.size.1)).collect();
        got.sort();
        want.sort();
        if got != want {
            self.wrong = Some(format!("the screen's classes at {:?} with {:?} and {:?}\n   got: {got:?}\n  want: {want:?}", self.size, BP[h], BP[v]));
        }
    }
    fn restyle(&mut self) {
        THEME.with(|t| resolve_styles(self.tree.root_mut(), &self.sheet, t, &mut VecDeque::new()));
    }
    fn settle(&mut self) {
        if self.app.quit {
            return;
        }
        if self.app.recompose.get() {
            self.tree = compose(&self.app);
            self.recomposed += 1;
            self.enter();
        }
        if self.app.focus != self.last_focus {
            self.focus();
        }
        if !self.tree.focused_is_focusable() {
            self.tree.set_focus_index(0);
        }
        self.classes();
        self.restyle();
        let mut c = Canvas::new(self.size.0, self.size.1);
        self.tree.root().render(&mut c, Region::from_u16(0, 0, self.size.0, self.size.1));
        self.picture = canvas_cells(&c);
    }
    fn deliver(&mut self, e: MessageEnvelope<Msg>) {
        let tx = self.tx.clone();
        self.app.handle_message(e, &mut EventContext::new(AppContext::new(tx), &mut self.tree));
    }
    fn actions(&mut self) {
        let mut a = vec![];
        asked(self.tree.root_mut(), &mut a);
        let tx = self.tx.clone();
        let mut ctx = EventContext::new(AppContext::new(tx), &mut self.tree);
        for a in a {
            if !self.app.on_action(&a, &mut ctx) {
                match a.as_str() {
                    "quit" | "app.quit" => self.app.request_quit(),
                    "bell" | "app.bell" => self.app.bell(),
                    _ => {}
                }
            }
        }
    }
    fn drain(&mut self) {
        self.settle();
        while !self.app.quit {
            let Ok(m) = self.rx.try_recv() else { break };
            self.deliver(m);
            self.settle();
        }
    }
    fn input(&mut self, e: &Event) {
        match e {
            Event::Key(k) => {
                match k.code {
                    KeyCode::Tab => self.tree.focus_next(),
                    KeyCode::BackTab => self.tree.focus_previous(),
                    _ => None,
                };
                if let Some(m) = self.tree.dispatch_key(k.code) {
                    let s = self.tree.focused_sender_info();
                    let b = self.tree.bubble_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name));
                    self.deliver(b);
                }
                let tx = self.tx.clone();
                self.app.on_key(k.code, &mut EventContext::new(AppContext::new(tx), &mut self.tree));
                self.actions();
            }
            Event::Mouse(m) => {
                let moved = m.kind == MouseEventKind::Moved;
                if moved {
                    no_hover(self.tree.root_mut());
                }
                let region = Region::from_u16(0, 0, self.size.0, self.size.1);
                if let Some((msg, s)) = self.tree.root_mut().on_mouse_with_sender(*m, region) {
                    self.deliver(MessageEnvelope::new(msg, s.id.as_deref(), s.type_name));
                }
                self.actions();
                let pos = (m.column as i32, m.row as i32);
                if !moved {
                    self.hide();
                } else {
                    let text = tip_of(self.tree.root_mut());
                    let same = self.tip.pos == Some(pos) && self.tip.text == text;
                    self.tip.pos = Some(pos);
                    self.tip.text = text;
                    if self.tip.text.is_none() {
                        self.hide();
                        self.tip.deadline = None;
                    } else if !same || self.tip.deadline.is_none() {
                        if !same {
                            self.hide();
                        }
                        self.tip.deadline = Some(self.now.get() + self.app.world.tooltip_delay);
                    }
                }
            }
            Event::Resize(w, h) => {
                self.size = (*w, *h);
                self.tree.root_mut().on_resize(Size::new(*w, *h));
            }
            _ => {}
        }
        self.drain();
    }
    fn hide(&mut self) {
        if self.tip.shown {
            self.tree.query_one_as::<Tooltip<Msg>, _, _>("Tooltip", |t| t.hide());
            self.tip.shown = false;
        }
    }
    /// Time passes: timers and the tooltip's clock, which ticks every 50 ms.
    fn advance(&mut self, to: u64) {
        while !self.app.quit {
            let tick = (self.now.get() / 50 + 1) * 50;
            let timer = self.timers.borrow().iter().min().copied();
            let next = timer.map(|t| t.0).unwrap_or(u64::MAX).min(tick);
            if next > to {
                break;
            }
            self.now.set(next);
            if timer.is_some_and(|t| t.0 == next) {
                let t = timer.unwrap();
                self.timers.borrow_mut().retain(|x| *x != t);
                self.deliver(MessageEnvelope::new(t.1, None, "AppContext"));
                self.drain();
            } else if self.tip.deadline.is_some_and(|d| d <= next) {
                let (text, (mx, my)) = (self.tip.text.clone().unwrap(), self.tip.pos.unwrap());
                self.tree.query_one_as::<Tooltip<Msg>, _, _>("Tooltip", |t| t.show(text));
                self.restyle();
                self.tree.query_one_as::<Tooltip<Msg>, _, _>("Tooltip", |t| {
                    let w = t.desired_size().width as i32;
                    t.set_position((mx - w / 2).max(0), my + 1);
                });
                self.tip.shown = true;
                self.tip.deadline = None;
                self.tips_seen += 1;
                self.drain();
            }
        }
        self.now.set(to);
    }
}

// ------------------------------------------------------------------------------------------------ the comparison

fn gen_event(g: &mut G, size: &mut (u16, u16), mouse: &mut (u16, u16)) -> Event {
    match g.weighted(&[10, 13, 1, 2]) {
        0 => {
            let code = match g.weighted(&[4, 2, 4, 2, 2]) {
                0 => KeyCode::Tab,
                1 => KeyCode::BackTab,
                2 => KeyCode::Char(*g.of(&['a', 'b', 'c', 'd', 'e', ' ', 'é'])),
                3 => KeyCode::Enter,
                _ => *g.of(&[KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::Backspace, KeyCode::Delete, KeyCode::Home, KeyCode::End, KeyCode::PageDown, KeyCode::Esc, KeyCode::F(2)]),
            };
            let m = if g.chance(1, 8) { *g.of(&[KeyModifiers::SHIFT, KeyModifiers::CONTROL]) } else { KeyModifiers::NONE };
            Event::Key(KeyEvent::new(code, m))
        }
        1 => {
            let kind = match g.weighted(&[5, 3, 2, 1, 2]) {
                0 => MouseEventKind::Moved,
                1 => MouseEventKind::Down(MouseButton::Left),
                2 => MouseEventKind::Up(MouseButton::Left),
                3 => MouseEventKind::Drag(MouseButton::Left),
                _ => *g.of(&[MouseEventKind::ScrollDown, MouseEventKind::ScrollUp]),
            };
            if g.chance(2, 3) {
                *mouse = match g.bool() {
                    true => (g.u16(0, 10), g.u16(0, 6)),
                    false => (g.u16(0, size.0 - 1), g.u16(0, size.1 - 1)),
                };
            }
            mouse.0 = mouse.0.min(size.0 - 1);
            mouse.1 = mouse.1.min(size.1 - 1);
            Event::Mouse(MouseEvent { kind, column: mouse.0, row: mouse.1, modifiers: KeyModifiers::NONE })
        }
        2 => g.of(&[Event::FocusGained, Event::FocusLost]).clone(),
        _ => {
            if g.chance(2, 3) {
                *size = (g.u16(6, 44), g.u16(3, 16));
            }
            Event::Resize(size.0, size.1)
        }
    }
}

fn gen_world(g: &mut G) -> World {
    let variants = (0..g.usize(1, 3))
        .map(|_| {
            let mut next = 0;
            (0..g.usize(1, 4)).map(|_| gen_node(g, 2, &mut next)).collect()
        })
        .collect();
    let quit = g.chance(1, 2);
    World {
        variants,
        table: (0..g.usize(3, 12)).map(|_| gen_act(g, quit)).collect(),
        // (when a rebuild requested in on_mount happens is not specified)
        mount: g.vec(0, 3, |g| gen_act(g, false)).into_iter().filter(|a| !matches!(a, Act::Recompose(_))).collect(),
        tooltip_delay: *g.of(&[0, 40, 100, 300, 500]),
        breakpoints: (g.usize(0, 4), g.usize(0, 4)),
    }
}

fn run<const P: bool>(g: &mut G) -> R {
    let world = Rc::new(gen_world(g));
    let mut size = (g.u16(10, 44), g.u16(4, 16));
    g.note(|| {
        let mut s = format!("screen {}x{} palette={P} tooltip delay {} breakpoints {:?}\n", size.0, size.1, world.tooltip_delay, world.breakpoints);
        for (i, v) in world.variants.iter().enumerate() {
            s.push_str(&format!("tree {i}:\n"));
            for n in v {
                show(n, 2, &mut s);
            }
        }
        s.push_str(&format!("reactions {:?}\non mount {:?}", world.table, world.mount));
        s
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let events = g.usize(1, 14);
    rt.block_on(async {
        textual::vp_hooks::capture_output();
        let (etx, erx) = mpsc::unbounded_channel();
        textual::vp_hooks::set_terminal(size, erx);
        let mut real = app::<P>(&world, Clock::Real(tokio::time::Instant::now()), None);
        let log = real.log.clone();
        let mut shadow = Shadow::<P>::new(&world, size);
        let mut term = Term::new(size.0 as usize, size.1 as usize, "?");
        let driver = async {
            let mut mouse = (0, 0);
            let t0 = tokio::time::Instant::now();
            let mut t = 3;
            let mut what = "start".to_string();
            let (mut kinds, mut same_resizes) = ([0; 3], 0);
            for i in 0..=events {
                if i > 0 {
                    let old = size;
                    let e = gen_event(g, &mut size, &mut mouse);
                    what = format!("{e:?} at {t} ms");
                    g.note(|| what.clone());
                    if let Event::Resize(w, h) = e {
                        // The terminal leaves anything it likes on a screen whose size changed.
                        if (w, h) != old {
                            term = Term::new(w as usize, h as usize, "?");
                        } else {
                            same_resizes += 1;
                        }
                    }
                    kinds[match e {
                        Event::Key(_) => 0,
                        Event::Mouse(_) => 1,
                        _ => 2,
                    }] += 1;
                    let sent = etx.send(Ok(e.clone())).is_ok();
                    ensure!(sent, "the event loop no longer takes events before {what}");
                    shadow.input(&e);
                } else {
                    shadow.drain();
                }
                // Let time pass and look again.
                let rounds = if i == 0 { 1 } else { g.usize(1, 3) };
                for round in 0..rounds {
                    let step = if round == 0 { if i == 0 { 3 } else { 10 } } else { 10 * g.below(40) + 10 };
                    let to = if i == 0 && round == 0 { 3 } else { t + step };
                    if round > 0 {
                        what = format!("waiting until {to} ms");
                        g.note(|| what.clone());
                    }
                    shadow.advance(to);
                    t = to;
                    tokio::time::sleep_until(t0 + Duration::from_millis(to)).await;
                    if let Some(w) = shadow.wrong.take() {
                        crate::fail!("after {what}: {w}");
                    }
                    let (real_log, shadow_log) = (log.borrow().clone(), shadow.app.log.borrow().clone());
                    ensure!(real_log == shadow_log, "after {what} the application has been told\n   got: {real_log:?}\n  want: {shadow_log:?}");
                    if shadow.app.quit {
                        break;
                    }
                    term.feed(&textual::vp_hooks::take_output())?;
                    term.shows(&shadow.picture, &what)?;
                }
                if shadow.app.quit {
                    ensure!(etx.is_closed(), "the application asked to quit ({what}) but the event loop goes on");
                    break;
                }
            }
            let quit = shadow.app.quit;
            // Otherwise the end of the input ends the loop.
            drop(etx);
            g.label_if(kinds[0] > 0, "keys");
            g.label_if(kinds[1] > 0, "mouse");
            g.label_if(kinds[2] > 0, "resized");
            g.label_if(same_resizes > 0, "resized to the same size");
            g.label_if(shadow.tips_seen > 0, "tooltip shown");
            g.label_if(shadow.recomposed > 0, "recomposed");
            g.label_if(quit, "quit");
            g.label_if(!shadow.app.due.is_empty(), "timer");
            let told = shadow.app.log.borrow().len();
            g.label_if(told > 4, "several messages");
            g.nontrivial_if(told > 1 && kinds[0] + kinds[1] > 0);
            g.key(&(format!("{:?}", world.table), shadow.app.log.borrow().clone()));
            Ok::<(), Fail>(())
        };
        let looping = async { tokio::time::timeout(Duration::from_secs(3600), real.event_loop_async()).await };
        let (d, l) = tokio::join!(driver, looping);
        d?;
        match l {
            Err(_) => crate::fail!("the event loop did not end when the input ended or the application asked to quit"),
            Ok(Err(e)) => crate::fail!("the event loop ended with {e}"),
            Ok(Ok(())) => {}
        }
        let (real_log, shadow_log) = (log.borrow().clone(), shadow.app.log.borrow().clone());
        ensure_eq!(real_log, shadow_log, "what the application was told, at the end");
        Ok(())
    })
}

fn plain(g: &mut G) -> R {
    run::<false>(g)
}
fn with_palette(g: &mut G) -> R {
    run::<true>(g)
}

pub const P27: Property = Property {
    id: "C27",
    rule: "the application was told about at least one key, message or action besides being mounted, and at least one key or mouse event was sent",
    assumptions: &["virtual time: the runtime's clock is paused and advances only when every task waits", "one input event at a time: bursts are the subject of C28", "the terminal is a model that keeps what it was sent"],
    parts: &[
        Part { name: "app without command palette", quick: 12_000, thorough: 300_000, f: plain },
        Part { name: "app with command palette closed", quick: 6_000, thorough: 150_000, f: with_palette },
    ],
};
