//! C33: a widget is what it was last told to be. A history of setters, restylings and paintings leaves a built-in widget
//! as one that was made with the final attributes straight away: the same answers, the same picture, the same reactions.
use crate::c11_canvas::{Glyph, MCell, canvas_cells};
use crate::engine::{G, Part, Property, R};
use crate::trees::mouse_event;
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyCode, MouseButton, MouseEventKind};
use std::collections::{BTreeSet, VecDeque};
use tcss::parser::{StyleSheet, parse_stylesheet};
use tcss::types::{RgbaColor, Theme};
use tcss::{StyleOverride, WidgetStates};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::label::LabelVariant;
use textual::widget::option_list::OptionItem;
use textual::widget::placeholder::{PlaceholderVariant, reset_placeholder_counter};
use textual::widget::scrollbar_corner::ScrollBarCorner;
use textual::{Canvas, HorizontalScroll, LoadingIndicator, Region, ScrollMessage, ScrollableContainer, Size, VerticalScroll, Widget};

type M = String;

thread_local! {
    static THEME: Theme = Theme::standard_themes()["textual-dark"].clone();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Static,
    Label,
    Button,
    Switch,
    Input,
    OptionList,
    Placeholder,
    Ruler,
    Loading,
    ScrollBar,
    Corner,
    Header,
    Tooltip,
    Container,
    Vertical,
    Horizontal,
    Grid,
    ItemGrid,
    Scrollable,
    VScroll,
    HScroll,
}
use Kind::*;
const KINDS: &[Kind] = &[Static, Label, Button, Switch, Input, OptionList, Placeholder, Ruler, Loading, ScrollBar, Corner, Header, Tooltip, Container, Vertical, Horizontal, Grid, ItemGrid, Scrollable, VScroll, HScroll];

impl Kind {
    fn has_classes(self) -> bool {
        !matches!(self, Switch | ScrollBar | Corner | Tooltip | Grid | ItemGrid)
    }
    fn has_id(self) -> bool {
        !matches!(self, Corner | Tooltip)
    }
    fn can_disable(self) -> bool {
        matches!(self, Static | Label | Button | Switch | Input | OptionList)
    }
    fn can_focus(self) -> bool {
        matches!(self, Button | Switch | Input | OptionList)
    }
    fn can_hover(self) -> bool {
        matches!(self, Button | Switch | ScrollBar)
    }
    fn can_press(self) -> bool {
        matches!(self, Button | Switch)
    }
    fn has_titles(self) -> bool {
        matches!(self, Static | Label | Container | Vertical | Horizontal)
    }
    fn has_tooltip(self) -> bool {
        self == Static
    }
    fn has_kids(self) -> bool {
        matches!(self, Container | Vertical | Horizontal | Grid | ItemGrid | Scrollable | VScroll | HScroll)
    }
    /// classes of its own, which `set_classes` may or may not keep
    fn own_classes(self) -> bool {
        matches!(self, Button | Ruler | Label | Header)
    }
    fn css_name(self) -> &'static str {
        match self {
            Loading => "LoadingIndicator",
            Corner => "ScrollBarCorner",
            Scrollable => "ScrollableContainer",
            VScroll => "VerticalScroll",
            HScroll => "HorizontalScroll",
            Static => "Static",
            Label => "Label",
            Button => "Button",
            Switch => "Switch",
            Input => "Input",
            OptionList => "OptionList",
            Placeholder => "Placeholder",
            Ruler => "Ruler",
            ScrollBar => "ScrollBar",
            Header => "Header",
            Tooltip => "Tooltip",
            Container => "Container",
            Vertical => "Vertical",
            Horizontal => "Horizontal",
            Grid => "Grid",
            ItemGrid => "ItemGrid",
        }
    }
}

type SwitchW = textual::widget::switch::Switch<M, fn(bool) -> M>;
type BarW = textual::widget::scrollbar::ScrollBar<M, fn(ScrollMessage) -> M>;

fn on_switch(v: bool) -> M {
    format!("switch {v}")
}
fn on_bar(m: ScrollMessage) -> M {
    format!("{m:?}")
}

/// The widget itself, held by its own type so that its own setters can be called.
enum W {
    Static(textual::Static<M>),
    Label(textual::Label<M>),
    Button(textual::Button<M>),
    Switch(SwitchW),
    Input(textual::Input<M>),
    OptionList(textual::OptionList<M>),
    Placeholder(textual::widget::placeholder::Placeholder),
    Ruler(textual::widget::ruler::Ruler<M>),
    Loading(LoadingIndicator<M>),
    ScrollBar(BarW),
    Corner(ScrollBarCorner),
    Header(textual::Header<M>),
    Tooltip(textual::Tooltip<M>),
    Container(textual::Container<M>),
    Vertical(textual::Vertical<M>),
    Horizontal(textual::Horizontal<M>),
    Grid(textual::Grid<M>),
    ItemGrid(textual::containers::item_grid::ItemGrid<M>),
    Scrollable(ScrollableContainer<M>),
    VScroll(VerticalScroll<M>),
    HScroll(HorizontalScroll<M>),
}

macro_rules! each {
    ($w:expr, $x:ident => $e:expr) => {
        match $w {
            W::Static($x) => $e,
            W::Label($x) => $e,
            W::Button($x) => $e,
            W::Switch($x) => $e,
            W::Input($x) => $e,
            W::OptionList($x) => $e,
            W::Placeholder($x) => $e,
            W::Ruler($x) => $e,
            W::Loading($x) => $e,
            W::ScrollBar($x) => $e,
            W::Corner($x) => $e,
            W::Header($x) => $e,
            W::Tooltip($x) => $e,
            W::Container($x) => $e,
            W::Vertical($x) => $e,
            W::Horizontal($x) => $e,
            W::Grid($x) => $e,
            W::ItemGrid($x) => $e,
            W::Scrollable($x) => $e,
            W::VScroll($x) => $e,
            W::HScroll($x) => $e,
        }
    };
}

impl W {
    fn w(&mut self) -> &mut dyn Widget<M> {
        each!(self, x => x)
    }
    fn r(&self) -> &dyn Widget<M> {
        each!(self, x => x)
    }
}

#[derive(Clone, Debug)]
struct Kid {
    text: String,
    class: &'static str,
    button: bool,
}

/// What the widget has been told.
#[derive(Clone, Debug)]
struct Told {
    kind: Kind,
    upright: bool,
    id: bool,
    classes: BTreeSet<&'static str>,
    disabled: bool,
    focused: bool,
    hovered: bool,
    active: bool,
    visible: bool,
    loading: bool,
    inline: Option<StyleOverride>,
    title: Option<&'static str>,
    subtitle: Option<&'static str>,
    tooltip: Option<&'static str>,
    text: String,
    markup: bool,
    label_variant: usize,
    variant: &'static str,
    flat: bool,
    compact: bool,
    on: bool,
    cursor: usize,
    placeholder: Option<&'static str>,
    items: Vec<(&'static str, bool)>,
    selected: usize,
    shows: PlaceholderVariant,
    bar: (f32, f32, f32),
    thick: u16,
    corner: (u16, u16),
    head: Option<&'static str>,
    tall: bool,
    shown: bool,
    at: (i32, i32),
    kids: Vec<Kid>,
    ticks: usize,
}

const CLASSES: &[&str] = &["a", "b", "a-b", "c"];
const TEXTS: &[&str] = &["", "x", "hello world", "two\nlines", "[bold]b[/] c", "日本 é", "a longer piece of text that wraps"];
const NAMES: &[&str] = &["", "T", "Title", "A much longer title than fits"];
const LABELS: &[LabelVariant] = &[LabelVariant::Default, LabelVariant::Success, LabelVariant::Error, LabelVariant::Warning, LabelVariant::Primary, LabelVariant::Secondary, LabelVariant::Accent];
const VARIANTS: &[&str] = &["default", "primary", "success", "warning", "error"];

/// Short ones among them, so that a text is often replaced by another of the same length.
fn gen_text(g: &mut G) -> String {
    if g.bool() { (0..g.usize(0, 3)).map(|_| *g.of(&["a", "b", "日", "é", "[", " "])).collect() } else { g.pick(TEXTS).to_string() }
}

/// Another text than the one there is, of the same length now and then.
fn other_text(g: &mut G, now: &str) -> String {
    if !g.chance(1, 3) {
        return gen_text(g);
    }
    let mut cs: Vec<&str> = crate::common::graphemes(now);
    if let Some(c) = cs.last_mut() {
        *c = if *c == "z" { "y" } else { "z" };
    }
    cs.concat()
}

fn gen_kids(g: &mut G) -> Vec<Kid> {
    g.vec(0, 3, |g| Kid { text: gen_text(g), class: g.pick(CLASSES), button: g.chance(1, 4) })
}
fn gen_items(g: &mut G) -> Vec<(&'static str, bool)> {
    g.vec(0, 5, |g| (g.pick(&["one", "two", "[bold]x[/bold]", "日本", ""]), g.chance(1, 3)))
}
fn gen_inline(g: &mut G) -> StyleOverride {
    let c = |g: &mut G| g.bool().then(|| RgbaColor::rgb(g.u8(), g.u8(), g.u8()));
    let t = |g: &mut G| g.chance(1, 4).then(|| RgbaColor::rgba(g.u8(), g.u8(), g.u8(), 0.5));
    let mut o = StyleOverride::new();
    o.color = c(g);
    o.background = c(g);
    o.tint = t(g);
    o.background_tint = t(g);
    o
}

fn start(g: &mut G, kind: Kind) -> Told {
    Told {
        kind,
        upright: g.bool(),
        id: kind.has_id() && g.bool(),
        classes: BTreeSet::new(),
        disabled: false,
        focused: false,
        hovered: false,
        active: false,
        visible: true,
        loading: false,
        inline: None,
        title: None,
        subtitle: None,
        tooltip: None,
        text: gen_text(g),
        markup: kind != OptionList && g.bool(),
        label_variant: g.usize(0, LABELS.len() - 1),
        variant: "default",
        flat: false,
        compact: false,
        on: false,
        cursor: 0,
        placeholder: None,
        items: if kind == OptionList { gen_items(g).into_iter().map(|(t, _)| (t, false)).collect() } else { vec![] },
        selected: 0,
        shows: PlaceholderVariant::Default,
        bar: (0.0, 0.0, 0.0),
        thick: g.u16(1, 2),
        corner: (g.u16(1, 3), g.u16(1, 3)),
        head: None,
        tall: g.bool(),
        shown: false,
        at: (0, 0),
        kids: if kind.has_kids() { gen_kids(g) } else { vec![] },
        ticks: 0,
    }
}

fn kids(t: &Told) -> Vec<Box<dyn Widget<M>>> {
    t.kids
        .iter()
        .map(|k| -> Box<dyn Widget<M>> {
            if k.button {
                Box::new(textual::Button::new(k.text.clone()).with_classes(k.class))
            } else {
                Box::new(textual::Static::new(k.text.clone()).with_classes(k.class))
            }
        })
        .collect()
}

macro_rules! id {
    ($t:expr, $e:expr) => {{
        let w = $e;
        if $t.id { w.with_id("w") } else { w }
    }};
}

/// A widget of the kind, with what cannot be changed later; `now` gives it everything else as well.
fn make(g: &mut G, t: &Told, now: bool) -> W {
    reset_placeholder_counter();
    let classes: Vec<&str> = t.classes.iter().copied().collect();
    // by builder or by setter, as it comes
    let by = g.bool();
    let cls = if now && by { classes.join(" ") } else { String::new() };
    macro_rules! cls {
        ($e:expr) => {{
            let w = $e;
            if cls.is_empty() { w } else { w.with_classes(cls.clone()) }
        }};
    }
    let mut w = match t.kind {
        Static => {
            let mut s = cls!(id!(t, textual::Static::new(t.text.clone()))).with_markup(t.markup);
            if now && by {
                s = s.with_disabled(t.disabled);
                if let Some(x) = t.title {
                    s = s.with_border_title(x);
                }
                if let Some(x) = t.subtitle {
                    s = s.with_border_subtitle(x);
                }
            }
            W::Static(s)
        }
        Label => {
            let mut s = cls!(id!(t, textual::Label::new(t.text.clone())).with_variant(LABELS[t.label_variant])).with_markup(t.markup);
            if now && by {
                s = s.with_disabled(t.disabled);
                if let Some(x) = t.title {
                    s = s.with_border_title(x);
                }
                if let Some(x) = t.subtitle {
                    s = s.with_border_subtitle(x);
                }
            }
            W::Label(s)
        }
        Button => {
            let mut b = cls!(id!(t, textual::Button::new(t.text.clone())));
            if t.markup {
                b = b.with_action("app.go");
            } else {
                b = b.with_message("pressed".to_string());
            }
            if now {
                if by {
                    b = b.with_variant(t.variant).with_flat(t.flat).with_compact(t.compact).with_disabled(t.disabled);
                } else {
                    b.set_variant(t.variant);
                    b.set_flat(t.flat);
                    b.set_compact(t.compact);
                }
            }
            W::Button(b)
        }
        Switch => {
            let mut s = id!(t, textual::widget::switch::Switch::new(now && by && t.on, on_switch as fn(bool) -> M));
            if now {
                if by {
                    s = s.with_focus(t.focused).with_hover(t.hovered).with_active(t.active).with_visible(t.visible).with_loading(t.loading).with_disabled(t.disabled);
                } else {
                    s.set_value(t.on);
                }
            }
            W::Switch(s)
        }
        Input => {
            let mut s = cls!(id!(t, textual::Input::new()));
            if now {
                if by {
                    s = s.with_disabled(t.disabled);
                    if let Some(p) = t.placeholder {
                        s = s.with_placeholder(p);
                    }
                } else if let Some(p) = t.placeholder {
                    s.set_placeholder(p);
                }
                s.set_value(t.text.clone());
                s.set_cursor(t.cursor);
            } else {
                s.set_value(t.text.clone());
            }
            W::Input(s)
        }
        OptionList => {
            let mut l = cls!(id!(t, textual::OptionList::new(if now { vec![] } else { t.items.iter().map(|i| i.0.to_string()).collect() })));
            if now {
                let items: Vec<OptionItem> = t.items.iter().map(|(x, d)| OptionItem::new(*x).disabled(*d)).collect();
                if by {
                    l = l.with_items_with_state(items).with_markup(t.markup);
                } else {
                    l.set_markup(t.markup);
                    l.set_items_with_state(items);
                }
                l.set_selected(t.selected);
            }
            W::OptionList(l)
        }
        Placeholder => {
            let mut p = cls!(id!(t, textual::widget::placeholder::Placeholder::new()));
            if t.markup {
                p = p.with_label(t.text.clone());
            }
            if now {
                if by {
                    p = p.with_variant(t.shows);
                } else {
                    p.set_variant(t.shows);
                }
            }
            W::Placeholder(p)
        }
        Ruler => W::Ruler(cls!(id!(t, if t.upright { textual::widget::ruler::Ruler::vertical() } else { textual::widget::ruler::Ruler::horizontal() }))),
        Loading => {
            let mut l = cls!(id!(t, LoadingIndicator::new()));
            if now {
                l.set_visible(t.visible);
                for _ in 0..t.ticks {
                    l.tick();
                }
            }
            W::Loading(l)
        }
        ScrollBar => {
            let mut b = id!(t, textual::widget::scrollbar::ScrollBar::new(t.upright, on_bar as fn(ScrollMessage) -> M)).with_thickness(t.thick);
            b.update(t.bar.0, t.bar.1, t.bar.2);
            W::ScrollBar(b)
        }
        Corner => W::Corner(ScrollBarCorner::new(t.corner.0, t.corner.1)),
        Header => {
            let mut h = id!(t, textual::Header::new(t.text.clone()));
            if by {
                h = cls!(h).with_tall(t.tall);
            } else {
                h = cls!(h.with_tall(t.tall));
            }
            if now {
                if let Some(s) = t.head {
                    if by {
                        h = h.with_subtitle(s);
                    } else {
                        h.set_subtitle(s);
                    }
                }
            }
            W::Header(h)
        }
        Tooltip => {
            let mut x = textual::Tooltip::new();
            if now {
                x.show(t.text.clone());
                x.set_position(t.at.0, t.at.1);
                if !t.shown {
                    x.hide();
                }
            }
            W::Tooltip(x)
        }
        Container => {
            let mut c = cls!(id!(t, textual::Container::new(if now && !by { vec![] } else { kids(t) })));
            if now && by {
                if let Some(x) = t.title {
                    c = c.with_border_title(x);
                }
                if let Some(x) = t.subtitle {
                    c = c.with_border_subtitle(x);
                }
            } else if now {
                c.set_children(kids(t));
            }
            W::Container(c)
        }
        Vertical => {
            let mut c = cls!(id!(t, textual::Vertical::new(kids(t))));
            if now && by {
                if let Some(x) = t.title {
                    c = c.with_border_title(x);
                }
                if let Some(x) = t.subtitle {
                    c = c.with_border_subtitle(x);
                }
            }
            W::Vertical(c)
        }
        Horizontal => {
            let mut c = cls!(id!(t, textual::Horizontal::new(kids(t))));
            if now && by {
                if let Some(x) = t.title {
                    c = c.with_border_title(x);
                }
                if let Some(x) = t.subtitle {
                    c = c.with_border_subtitle(x);
                }
            }
            W::Horizontal(c)
        }
        Grid => W::Grid(id!(t, textual::Grid::new(kids(t)))),
        ItemGrid => W::ItemGrid(id!(t, textual::containers::item_grid::ItemGrid::new(kids(t)))),
        Scrollable => W::Scrollable(cls!(id!(t, ScrollableContainer::new(kids(t))))),
        VScroll => W::VScroll(cls!(id!(t, VerticalScroll::new(kids(t))))),
        HScroll => W::HScroll(cls!(id!(t, HorizontalScroll::new(kids(t))))),
    };
    if now {
        let x = w.w();
        for c in &classes {
            x.add_class(c);
        }
        x.set_disabled(t.disabled);
        if t.focused {
            x.set_focus(true);
        }
        if t.hovered {
            x.set_hover(true);
        }
        if t.active {
            x.set_active(true);
        }
        if t.kind == Switch {
            x.set_visible(t.visible);
            x.set_loading(t.loading);
        }
        if let Some(i) = &t.inline {
            x.set_inline_style(i.clone());
        }
        if t.kind.has_titles() {
            if let Some(s) = t.title {
                x.set_border_title(s);
            }
            if let Some(s) = t.subtitle {
                x.set_border_subtitle(s);
            }
        }
        if t.kind.has_tooltip() {
            x.set_tooltip(t.tooltip.map(String::from));
        }
    }
    w
}

/// Where the highlight of a list goes: to the option itself, or the next enabled one, or the one before.
fn settle(items: &[(&str, bool)], at: usize) -> usize {
    if items.is_empty() {
        return 0;
    }
    let at = at.min(items.len() - 1);
    if !items[at].1 {
        return at;
    }
    (at..items.len()).find(|&i| !items[i].1).or_else(|| (0..at).rev().find(|&i| !items[i].1)).unwrap_or(at)
}

/// One thing the widget is told, noted in `t`.
fn tell(g: &mut G, w: &mut W, t: &mut Told) -> String {
    let own = match t.kind {
        Static | Label | Button | Switch | Input | OptionList | Placeholder | Loading | ScrollBar | Corner | Header | Tooltip | Container => 5,
        _ => 0,
    };
    let x = w.w();
    // now and then also what the kind does not have
    let k = t.kind;
    let if_has = |has: bool, n: u64| if has { 4 * n } else { 1 };
    match g.weighted(&[if_has(k.has_classes(), 4), if_has(k.can_disable(), 2), if_has(k.can_focus(), 2), if_has(k.can_hover(), 2), 8, if_has(k.has_titles(), 3), if_has(k.has_tooltip(), 3), if_has(k == Switch, 2), own * 5]) {
        0 => {
            let c = g.pick(CLASSES);
            match g.below(5) {
                0 => {
                    x.add_class(c);
                    t.classes.insert(c);
                    format!("add_class({c})")
                }
                1 => {
                    x.remove_class(c);
                    t.classes.remove(c);
                    format!("remove_class({c})")
                }
                2 => {
                    x.toggle_class(c);
                    if !t.classes.remove(c) {
                        t.classes.insert(c);
                    }
                    format!("toggle_class({c})")
                }
                3 => {
                    let on = g.bool();
                    x.set_class(on, c);
                    if on {
                        t.classes.insert(c);
                    } else {
                        t.classes.remove(c);
                    }
                    format!("set_class({on}, {c})")
                }
                _ => {
                    if t.kind.own_classes() {
                        return "nothing".into();
                    }
                    let l = g.vec(0, 3, |g| g.pick(CLASSES));
                    let s = l.join(g.pick(&[" ", "  "]));
                    x.set_classes(&s);
                    t.classes = l.into_iter().collect();
                    format!("set_classes({s:?})")
                }
            }
        }
        1 => {
            let d = g.bool();
            x.set_disabled(d);
            t.disabled = d;
            format!("set_disabled({d})")
        }
        2 => {
            let f = g.bool();
            match (f, g.bool()) {
                (true, true) if t.kind.can_focus() && !t.disabled && t.visible && !t.loading => {
                    x.focus_nth(0);
                }
                (false, true) if !t.kind.has_kids() => x.clear_focus(),
                _ => x.set_focus(f),
            }
            t.focused = f;
            format!("focus {f}")
        }
        3 => match g.below(3) {
            0 => {
                let h = g.bool();
                let was = x.get_state().contains(WidgetStates::HOVER);
                let said = x.set_hover(h);
                t.hovered = h;
                if t.kind.can_hover() && said != (was != h) {
                    return format!("WRONG: set_hover({h}) said {said}, hovered before: {was}");
                }
                format!("set_hover({h})")
            }
            1 => {
                x.clear_hover();
                t.hovered = false;
                if t.kind == Switch {
                    t.active = false;
                }
                "clear_hover".into()
            }
            _ => {
                let a = g.bool();
                let was = x.get_state().contains(WidgetStates::ACTIVE);
                let said = x.set_active(a);
                t.active = a;
                if t.kind.can_press() && said != (was != a) {
                    return format!("WRONG: set_active({a}) said {said}, active before: {was}");
                }
                format!("set_active({a})")
            }
        },
        4 => {
            if g.bool() {
                let i = gen_inline(g);
                x.set_inline_style(i.clone());
                t.inline = Some(i);
                "set_inline_style".into()
            } else {
                x.clear_inline_style();
                t.inline = None;
                "clear_inline_style".into()
            }
        }
        5 => {
            let s = g.pick(NAMES);
            if g.bool() {
                x.set_border_title(s);
                t.title = Some(s);
                format!("set_border_title({s:?})")
            } else {
                x.set_border_subtitle(s);
                t.subtitle = Some(s);
                format!("set_border_subtitle({s:?})")
            }
        }
        6 => {
            let s = g.bool().then(|| g.pick(NAMES));
            x.set_tooltip(s.map(String::from));
            t.tooltip = s;
            format!("set_tooltip({s:?})")
        }
        7 => {
            if t.kind != Switch {
                return "nothing".into();
            }
            let b = g.bool();
            if g.bool() {
                x.set_visible(b);
                t.visible = b;
                format!("set_visible({b})")
            } else {
                x.set_loading(b);
                t.loading = b;
                format!("set_loading({b})")
            }
        }
        _ => match w {
            W::Static(s) => {
                t.text = other_text(g, &t.text);
                s.update(t.text.clone());
                format!("update({:?})", t.text)
            }
            W::Label(s) => {
                t.text = other_text(g, &t.text);
                if g.bool() {
                    s.update(t.text.clone());
                } else {
                    s.as_static_mut().update(t.text.clone());
                }
                format!("update({:?})", t.text)
            }
            W::Button(b) => match g.below(4) {
                0 => {
                    t.text = other_text(g, &t.text);
                    b.set_label(t.text.clone());
                    format!("set_label({:?})", t.text)
                }
                1 => {
                    t.variant = g.pick(VARIANTS);
                    b.set_variant(t.variant);
                    format!("set_variant({})", t.variant)
                }
                2 => {
                    t.flat = g.bool();
                    b.set_flat(t.flat);
                    format!("set_flat({})", t.flat)
                }
                _ => {
                    t.compact = g.bool();
                    b.set_compact(t.compact);
                    format!("set_compact({})", t.compact)
                }
            },
            W::Switch(s) => {
                t.on = g.bool();
                s.set_value(t.on);
                format!("set_value({})", t.on)
            }
            W::Input(s) => match g.below(4) {
                0 => {
                    t.text = other_text(g, &t.text);
                    s.set_value(t.text.clone());
                    t.cursor = t.cursor.min(crate::common::graphemes(&t.text).len());
                    format!("set_value({:?})", t.text)
                }
                1 => {
                    let c = if g.bool() { crate::common::graphemes(&t.text).len() } else { g.usize(0, 14) };
                    s.set_cursor(c);
                    t.cursor = c.min(crate::common::graphemes(&t.text).len());
                    format!("set_cursor({c})")
                }
                2 => {
                    let p = g.pick(&["", "p", "type [here]", "日本"]);
                    s.set_placeholder(p);
                    t.placeholder = Some(p);
                    format!("set_placeholder({p:?})")
                }
                _ => {
                    s.clear_placeholder();
                    t.placeholder = None;
                    "clear_placeholder".into()
                }
            },
            W::OptionList(l) => match g.below(4) {
                0 => {
                    let items = gen_items(g);
                    l.set_items(items.iter().map(|i| i.0.to_string()).collect());
                    t.items = items.into_iter().map(|(x, _)| (x, false)).collect();
                    t.selected = settle(&t.items, t.selected);
                    format!("set_items({:?})", t.items)
                }
                1 => {
                    t.items = gen_items(g);
                    l.set_items_with_state(t.items.iter().map(|(x, d)| OptionItem::new(*x).disabled(*d)).collect());
                    t.selected = settle(&t.items, t.selected);
                    format!("set_items_with_state({:?})", t.items)
                }
                2 => {
                    t.markup = g.bool();
                    l.set_markup(t.markup);
                    format!("set_markup({})", t.markup)
                }
                _ => {
                    let n = g.usize(0, 6);
                    l.set_selected(n);
                    t.selected = settle(&t.items, n);
                    format!("set_selected({n})")
                }
            },
            W::Placeholder(p) => {
                t.shows = *g.of(&[PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text]);
                p.set_variant(t.shows);
                format!("set_variant({:?})", t.shows)
            }
            W::Loading(l) => {
                if g.bool() {
                    l.tick();
                    t.ticks += 1;
                    "tick".into()
                } else {
                    t.visible = g.chance(2, 3);
                    l.set_visible(t.visible);
                    format!("set_visible({})", t.visible)
                }
            }
            W::ScrollBar(b) => {
                t.bar = match g.below(4) {
                    0 => (g.u16(0, 60) as f32, t.bar.1, t.bar.2),
                    1 => (t.bar.0, g.u16(0, 30) as f32, t.bar.2),
                    2 => (t.bar.0, t.bar.1, g.u16(0, 40) as f32 / 2.0),
                    _ => (g.u16(10, 60) as f32, g.u16(1, 10) as f32, g.u16(0, 40) as f32 / 2.0),
                };
                // a position is between 0 and what is out of sight
                t.bar.2 = t.bar.2.min((t.bar.0 - t.bar.1).max(0.0));
                b.update(t.bar.0, t.bar.1, t.bar.2);
                format!("update{:?}", t.bar)
            }
            W::Corner(c) => {
                t.corner = (g.u16(1, 4), g.u16(1, 4));
                c.update_size(t.corner.0, t.corner.1);
                format!("update_size{:?}", t.corner)
            }
            W::Header(h) => match g.below(3) {
                0 => {
                    t.text = other_text(g, &t.text);
                    h.set_title(t.text.clone());
                    format!("set_title({:?})", t.text)
                }
                1 => {
                    let s = g.pick(NAMES);
                    h.set_subtitle(s);
                    t.head = Some(s);
                    format!("set_subtitle({s:?})")
                }
                _ => {
                    h.clear_subtitle();
                    t.head = None;
                    "clear_subtitle".into()
                }
            },
            W::Tooltip(x) => match g.below(3) {
                0 => {
                    t.text = other_text(g, &t.text);
                    x.show(t.text.clone());
                    t.shown = true;
                    format!("show({:?})", t.text)
                }
                1 => {
                    x.hide();
                    t.shown = false;
                    "hide".into()
                }
                _ => {
                    t.at = (g.i32(0, 20), g.i32(0, 6));
                    x.set_position(t.at.0, t.at.1);
                    format!("set_position{:?}", t.at)
                }
            },
            W::Container(c) => {
                t.kids = gen_kids(g);
                c.set_children(kids(t));
                format!("set_children({:?})", t.kids.len())
            }
            _ => "nothing".into(),
        },
    }
}

/// What the widget says about itself is what it was last told.
fn answers(w: &mut W, t: &Told) -> R {
    let k = t.kind;
    let x = w.r();
    let meta = x.get_meta();
    if k.has_classes() {
        for c in CLASSES {
            let want = t.classes.contains(c);
            ensure_eq!(x.has_class(c), want, "has_class({c})");
            ensure_eq!(x.classes().iter().any(|d| d == c), want, "{c} among classes()");
            ensure_eq!(meta.classes.iter().any(|d| d == c), want, "{c} among the classes the style sheet sees");
        }
    }
    if k == Button {
        let has = |c: &str| meta.classes.iter().any(|d| d == c);
        for v in VARIANTS {
            ensure_eq!(has(&format!("-{v}")), t.variant == *v, "class -{v} of a button of variant {}", t.variant);
        }
        ensure_eq!((has("-style-flat"), has("-style-default"), has("-textual-compact")), (t.flat, !t.flat, t.compact), "flat, default and compact classes of a button");
    }
    ensure_eq!(x.id(), t.id.then_some("w"), "id");
    ensure_eq!(meta.id.as_deref(), t.id.then_some("w"), "id the style sheet sees");
    if k.has_id() {
        ensure_eq!(x.sender_info().id, t.id.then(|| "w".to_string()), "id as a sender");
    }
    for (can, flag, want) in [
        (k.can_disable(), WidgetStates::DISABLED, t.disabled),
        (k.can_focus(), WidgetStates::FOCUS, t.focused),
        (k.can_hover(), WidgetStates::HOVER, t.hovered),
        (k.can_press(), WidgetStates::ACTIVE, t.active),
    ] {
        if can {
            ensure_eq!(x.get_state().contains(flag), want, "{flag:?} in get_state");
            ensure_eq!(meta.states.contains(flag), want, "{flag:?} in the state the style sheet sees");
        }
    }
    if k.can_disable() {
        ensure_eq!(x.is_disabled(), t.disabled, "is_disabled");
    }
    if k.can_focus() {
        ensure_eq!(x.is_focused(), t.focused, "is_focused");
        ensure_eq!(x.is_focusable(), !t.disabled && t.visible && !t.loading, "is_focusable");
        ensure_eq!(x.count_focusable(), (!t.disabled && t.visible && !t.loading) as usize, "count_focusable");
    }
    if matches!(k, Switch | Loading) {
        ensure_eq!(x.is_visible(), t.visible, "is_visible");
    }
    if k == Switch {
        ensure_eq!(x.is_loading(), t.loading, "is_loading");
    }
    if k == Tooltip {
        ensure_eq!(x.is_visible(), t.shown, "is_visible");
    }
    let inline = x.inline_style().cloned().unwrap_or_default();
    ensure!(inline == t.inline.clone().unwrap_or_default(), "inline style {inline:?}, told {:?}", t.inline);
    if k.has_titles() {
        ensure_eq!(x.border_title(), t.title, "border_title");
        ensure_eq!(x.border_subtitle(), t.subtitle, "border_subtitle");
    }
    if k.has_tooltip() {
        ensure_eq!(x.tooltip(), t.tooltip.map(String::from), "tooltip");
    }
    if k.has_kids() {
        ensure_eq!(x.child_count(), t.kids.len(), "child_count");
        ensure_eq!(x.count_focusable(), t.kids.iter().filter(|k| k.button).count(), "count_focusable");
    }
    match w {
        W::Input(s) => {
            ensure_eq!((s.value(), s.cursor()), (t.text.as_str(), t.cursor), "value and cursor");
        }
        W::OptionList(l) => {
            let items: Vec<&str> = t.items.iter().map(|i| i.0).collect();
            ensure_eq!(l.items(), &items[..], "items");
            ensure_eq!(l.selected_index(), t.selected, "selected index");
            ensure_eq!(l.selected(), items.get(t.selected).copied(), "selected");
        }
        W::Header(h) => {
            ensure_eq!((h.title(), h.subtitle(), h.is_tall()), (t.text.as_str(), t.head, t.tall), "title, subtitle and tall");
        }
        W::Placeholder(p) => ensure!(p.variant() == t.shows, "variant {:?}, told {:?}", p.variant(), t.shows),
        W::Label(l) => ensure!(l.variant() == Some(LABELS[t.label_variant]), "variant {:?}", l.variant()),
        W::ScrollBar(b) => ensure_eq!(b.can_scroll(), t.bar.0 > t.bar.1, "can_scroll"),
        _ => {}
    }
    Ok(())
}

fn decls(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.usize(1, 3) {
        s.push_str(match g.below(14) {
            0 => "color: red; ",
            1 => "color: $accent; ",
            2 => "background: #204060; ",
            3 => "background: blue 40%; ",
            4 => "padding: 1 2; ",
            5 => "border: round green; ",
            6 => "border: none; ",
            7 => "text-style: bold; ",
            8 => "text-style: underline; ",
            9 => "tint: yellow 30%; ",
            10 => "text-align: right; ",
            11 => "content-align: center middle; ",
            12 => "border-title-align: center; ",
            _ => "height: 5; ",
        });
    }
    s
}

fn sheet_for(g: &mut G, w: &mut W, k: Kind) -> (StyleSheet, String) {
    fn css(w: &mut dyn Widget<M>, out: &mut String) {
        out.push_str(w.default_css());
        out.push('\n');
        w.for_each_child(&mut |c| css(c, out));
    }
    let mut base = format!("{}\n{}\n{}\n", textual::Static::<M>::new("").default_css(), textual::Button::<M>::new("").default_css(), textual::OptionList::<M>::new(vec![]).default_css());
    css(w.w(), &mut base);
    let mut own = String::new();
    for _ in 0..g.usize(1, 6) {
        let mut sel = match g.below(7) {
            0 => "#w".to_string(),
            1 | 2 => format!(".{}", g.pick(CLASSES)),
            3 => k.css_name().to_string(),
            4 => format!("{}.{}", k.css_name(), g.pick(CLASSES)),
            5 => format!(".{} Static", g.pick(CLASSES)),
            _ => "*".to_string(),
        };
        if g.chance(1, 2) {
            let pseudo = g.pick(&[":hover", ":focus", ":active", ":disabled"]);
            sel = match sel.split_once(' ') {
                Some((a, b)) => format!("{a}{pseudo} {b}"),
                None => format!("{sel}{pseudo}"),
            };
        }
        own.push_str(&format!("{sel} {{ {}}}\n", decls(g)));
    }
    let all = format!("{base}{own}");
    (parse_stylesheet(&all).expect("the sheet parses"), own)
}

fn restyle(w: &mut W, sheet: &StyleSheet, dirty_only: bool) {
    THEME.with(|t| {
        if dirty_only {
            resolve_dirty_styles(w.w(), sheet, t, &mut VecDeque::new(), false, &InheritedContext::from_theme(t));
        } else {
            resolve_styles(w.w(), sheet, t, &mut VecDeque::new());
        }
    })
}

fn paint(w: &mut W, at: Region) -> Vec<MCell> {
    let (cw, ch) = ((at.x + at.width + 2) as u16, (at.y + at.height + 2) as u16);
    let mut c = Canvas::new(cw, ch);
    w.r().render(&mut c, at);
    canvas_cells(&c)
}

fn text(cells: &[MCell], width: usize) -> String {
    cells
        .chunks(width)
        .map(|r| {
            let s: String = r
                .iter()
                .map(|c| match &c.glyph {
                    Glyph::Lead(s) => s.as_str(),
                    Glyph::Cont => "",
                })
                .collect();
            format!("\n    |{s}|")
        })
        .collect()
}

fn same(a: &mut W, b: &mut W, at: Region, what: &str) -> R {
    let (sa, sb) = (a.r().get_style(), b.r().get_style());
    if sa != sb {
        let (x, y) = (format!("{sa:#?}"), format!("{sb:#?}"));
        let d: Vec<String> = x.lines().zip(y.lines()).filter(|(x, y)| x != y).take(4).map(|(x, y)| format!("{} (made so: {})", x.trim(), y.trim())).collect();
        return Err(crate::engine::Fail(format!("{what}: style: {}", d.join("; "))));
    }
    let (ma, mb) = (a.r().get_meta(), b.r().get_meta());
    ensure_eq!(format!("{:?}", ma.states), format!("{:?}", mb.states), "{what}: states");
    ensure_eq!(ma.classes.iter().collect::<BTreeSet<_>>(), mb.classes.iter().collect::<BTreeSet<_>>(), "{what}: classes");
    let (da, db) = (a.r().desired_size(), b.r().desired_size());
    ensure_eq!((da.width, da.height), (db.width, db.height), "{what}: desired size");
    for n in [1u16, 7, at.width.max(1) as u16] {
        ensure_eq!(a.r().intrinsic_height_for_width(n), b.r().intrinsic_height_for_width(n), "{what}: height for a width of {n}");
    }
    let (w, h) = (at.width.max(0) as u16, at.height.max(0) as u16);
    ensure_eq!(a.r().content_height_for_scroll(w, h), b.r().content_height_for_scroll(w, h), "{what}: height for scrolling");
    ensure_eq!(a.r().content_width_for_scroll(w), b.r().content_width_for_scroll(w), "{what}: width for scrolling");
    let (pa, pb) = (paint(a, at), paint(b, at));
    let cw = (at.x + at.width + 2) as usize;
    if let Some(i) = (0..pa.len()).find(|&i| pa[i] != pb[i]) {
        return Err(crate::engine::Fail(format!("{what}: column {} row {} shows {:?}, made so: {:?}{}\n  made so:{}", i % cw, i / cw, pa[i], pb[i], text(&pa, cw), text(&pb, cw))));
    }
    Ok(())
}

fn history(g: &mut G) -> R {
    let kind = *g.of(KINDS);
    g.label(kind.css_name());
    let mut t = start(g, kind);
    let mut w = make(g, &t, false);
    let (sheet, own) = sheet_for(g, &mut w, kind);
    let at = Region::new(g.i32(0, 3), g.i32(0, 2), g.i32(1, 36), g.i32(1, 9));
    let mut log = vec![format!("{t:?}")];
    restyle(&mut w, &sheet, false);
    let run = (|| -> R {
        let n = g.usize(1, 9);
        let mut told = 0;
        for _ in 0..n {
            if g.chance(1, 3) {
                paint(&mut w, at);
                log.push("painted".into());
            }
            if g.chance(1, 2) {
                restyle(&mut w, &sheet, true);
                ensure!(!w.r().is_dirty() || !w.r().is_visible(), "dirty after a restyling");
                log.push("restyled".into());
            }
            if g.chance(1, 6) {
                w.w().on_resize(Size::new(g.u16(1, 40), g.u16(1, 12)));
                log.push("resized".into());
                restyle(&mut w, &sheet, true);
            }
            let clean = !w.r().is_dirty();
            let before = (w.r().get_meta(), w.r().inline_style().cloned().unwrap_or_default());
            let s = tell(g, &mut w, &mut t);
            ensure!(!s.starts_with("WRONG"), "{s}");
            log.push(s);
            told += 1;
            let m = w.r().get_meta();
            if clean && w.r().is_visible() && (m.classes != before.0.classes || m.states != before.0.states || w.r().inline_style().cloned().unwrap_or_default() != before.1) {
                ensure!(w.r().is_dirty(), "what styles the widget changed, but it is not marked to be styled again");
            }
            answers(&mut w, &t)?;
        }
        g.nontrivial_if(told >= 3);
        let size = Size::new(at.width as u16, at.height as u16);
        let resize = g.bool();
        if resize {
            w.w().on_resize(size);
        }
        restyle(&mut w, &sheet, true);
        let mut fresh = make(g, &t, true);
        if resize {
            fresh.w().on_resize(size);
        }
        restyle(&mut fresh, &sheet, false);
        // an invisible widget keeps the style it had
        if !w.r().is_visible() {
            return Ok(());
        }
        answers(&mut fresh, &t)?;
        same(&mut w, &mut fresh, at, "after the history")?;
        // and both take what happens next in the same way
        for _ in 0..g.usize(0, 4) {
            let (a, b, s) = if kind.can_focus() && g.bool() {
                let k = *g.of(&[KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char('x'), KeyCode::Left, KeyCode::Right, KeyCode::Up, KeyCode::Down, KeyCode::Home, KeyCode::End, KeyCode::Backspace, KeyCode::Delete]);
                (w.w().on_event(k), fresh.w().on_event(k), format!("{k:?}"))
            } else {
                let k = *g.of(&[MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left), MouseEventKind::Moved, MouseEventKind::ScrollDown, MouseEventKind::ScrollUp, MouseEventKind::Drag(MouseButton::Left)]);
                let e = mouse_event(k, (at.x + g.i32(0, at.width)) as u16, (at.y + g.i32(0, at.height)) as u16);
                (w.w().on_mouse(e, at), fresh.w().on_mouse(e, at), format!("{k:?} at {} {}", e.column, e.row))
            };
            log.push(s.clone());
            ensure_eq!(a, b, "the answer to {s}");
            ensure_eq!(w.r().take_pending_action(), fresh.r().take_pending_action(), "the action after {s}");
            restyle(&mut w, &sheet, true);
            restyle(&mut fresh, &sheet, true);
            same(&mut w, &mut fresh, at, &format!("after {s}"))?;
        }
        Ok(())
    })();
    run.map_err(|f| crate::engine::Fail(format!("{}\n  in {at:?}, style sheet:\n{own}  history:\n    {}", f.0, log.join("\n    "))))
}


type D<'a> = &'a mut dyn Widget<M>;

fn nth(w: D, n: &mut usize, f: &mut dyn FnMut(D)) {
    if *n == 0 {
        *n = usize::MAX;
        f(w);
        return;
    }
    *n -= 1;
    w.for_each_child(&mut |c| {
        if *n != usize::MAX {
            nth(c, n, f)
        }
    });
}

fn at<T>(root: D, i: usize, f: impl FnOnce(D) -> T) -> T {
    let (mut f, mut out) = (Some(f), None);
    nth(root, &mut { i }, &mut |w| out = f.take().map(|f| f(w)));
    out.expect("the widget is there")
}

#[derive(Default, Clone)]
struct Part0 {
    classes: Option<BTreeSet<String>>,
    disabled: Option<bool>,
    hovered: Option<bool>,
    active: Option<bool>,
    focused: Option<bool>,
    inline: StyleOverride,
    tooltip: Option<Option<String>>,
}

fn styles(w: D, out: &mut Vec<(String, tcss::ComputedStyle, bool)>) {
    if !w.is_visible() {
        return;
    }
    out.push((w.type_name().to_string(), w.get_style(), w.is_dirty()));
    w.for_each_child(&mut |c| styles(c, out));
}

/// The parts of a whole application, also those inside the header and the command palette.
fn parts(g: &mut G) -> R {
    let mut header = textual::Header::<M>::new("title").with_tall(g.bool());
    if g.bool() {
        header.set_subtitle("sub");
    }
    let mut palette = textual::CommandPalette::<M>::new();
    palette.set_visible(true);
    let body: Vec<Box<dyn Widget<M>>> = vec![
        Box::new(header),
        Box::new(textual::Container::new(vec![
            Box::new(textual::Input::new()) as Box<dyn Widget<M>>,
            Box::new(textual::Button::new("b")),
            Box::new(textual::OptionList::new(vec!["o".into(), "p".into()])),
            Box::new(textual::Label::new("l")),
        ])),
    ];
    let screen = textual::widget::screen::Screen::new(body);
    let mut root = textual::widget::app_widget::AppWidget::new(vec![Box::new(screen) as Box<dyn Widget<M>>, Box::new(palette), Box::new(LoadingIndicator::new())]);
    root.on_resize(Size::new(80, 24));
    fn collect(w: D, css: &mut String, metas: &mut Vec<tcss::WidgetMeta>) {
        css.push_str(w.default_css());
        css.push('\n');
        metas.push(w.get_meta());
        w.for_each_child(&mut |c| collect(c, css, metas));
    }
    let (mut css, mut metas) = (String::new(), vec![]);
    collect(&mut root, &mut css, &mut metas);
    let mut own = String::new();
    for _ in 0..g.usize(1, 6) {
        let m = g.of(&metas).clone();
        let mut sel = match g.below(4) {
            0 => format!(".{}", g.pick(CLASSES)),
            1 => m.type_name.to_string(),
            2 => format!("{}.{}", m.type_name, g.pick(CLASSES)),
            _ => format!("{}.{} {}", g.of(&metas).type_name, g.pick(CLASSES), m.type_name),
        };
        if g.chance(1, 2) {
            sel.push_str(g.pick(&[":hover", ":focus", ":active", ":disabled"]));
        }
        own.push_str(&format!("{sel} {{ {}}}\n", decls(g)));
    }
    let sheet = parse_stylesheet(&format!("{css}{own}")).expect("the sheet parses");
    let mut model: Vec<Part0> = vec![Part0::default(); metas.len()];
    let mut log: Vec<String> = vec![];
    let both = |root: &mut dyn Widget<M>, dirty: bool| {
        THEME.with(|t| {
            if dirty {
                resolve_dirty_styles(root, &sheet, t, &mut VecDeque::new(), false, &InheritedContext::from_theme(t));
            } else {
                resolve_styles(root, &sheet, t, &mut VecDeque::new());
            }
        })
    };
    both(&mut root, false);
    let run = (|| -> R {
        let n = g.usize(1, 10);
        g.nontrivial_if(n >= 3);
        for _ in 0..n {
            both(&mut root, true);
            // more often the parts that no application reaches by itself
            let inner: Vec<usize> = (0..metas.len()).filter(|&i| matches!(metas[i].type_name, "HeaderIcon" | "HeaderTitle" | "HeaderClockSpace" | "SearchIcon" | "CommandInput" | "CommandList" | "CommandPalette")).collect();
            // (a list makes its options anew, so what they are told is not kept)
            let lasting: Vec<usize> = (0..metas.len()).filter(|&i| metas[i].type_name != "Static").collect();
            let i = if g.bool() { *g.of(&inner) } else { *g.of(&lasting) };
            let name = metas[i].type_name;
            let m = &mut model[i];
            let before = at(&mut root, i, |w| (w.get_meta(), w.inline_style().cloned().unwrap_or_default()));
            let s = at(&mut root, i, |w| match g.below(8) {
                0 | 1 if !matches!(name, "Screen" | "App" | "AppWidget" | "Switch") => {
                    let c = g.pick(CLASSES);
                    let set = m.classes.get_or_insert_with(|| CLASSES.iter().filter(|c| w.has_class(c)).map(|c| c.to_string()).collect());
                    match g.below(4) {
                        0 => {
                            w.add_class(c);
                            set.insert(c.to_string());
                            format!("add_class({c})")
                        }
                        1 => {
                            w.remove_class(c);
                            set.remove(c);
                            format!("remove_class({c})")
                        }
                        2 => {
                            w.toggle_class(c);
                            if !set.remove(c) {
                                set.insert(c.to_string());
                            }
                            format!("toggle_class({c})")
                        }
                        _ if !matches!(name, "Button" | "Label" | "Static") => {
                            let l = g.vec(0, 3, |g| g.pick(CLASSES));
                            w.set_classes(&l.join(" "));
                            *set = l.iter().map(|c| c.to_string()).collect();
                            format!("set_classes({l:?})")
                        }
                        _ => "nothing".into(),
                    }
                }
                2 => {
                    let d = g.bool();
                    w.set_disabled(d);
                    if matches!(name, "HeaderIcon" | "HeaderTitle" | "HeaderClockSpace" | "SearchIcon" | "CommandInput" | "CommandList" | "Input" | "Button" | "OptionList" | "Label" | "Static") {
                        m.disabled = Some(d);
                    }
                    format!("set_disabled({d})")
                }
                3 if matches!(name, "HeaderIcon" | "Button") => {
                    let h = g.bool();
                    if h || g.bool() {
                        w.set_hover(h);
                    } else {
                        w.clear_hover();
                    }
                    m.hovered = Some(h);
                    format!("hover {h}")
                }
                4 if matches!(name, "HeaderIcon" | "Button") => {
                    let h = g.bool();
                    w.set_active(h);
                    m.active = Some(h);
                    format!("active {h}")
                }
                5 if matches!(name, "Button" | "Input" | "OptionList") => {
                    let f = g.bool();
                    w.set_focus(f);
                    m.focused = Some(f);
                    format!("focus {f}")
                }
                6 if matches!(name, "HeaderIcon" | "Static") => {
                    let t = g.bool().then(|| g.pick(NAMES).to_string());
                    w.set_tooltip(t.clone());
                    m.tooltip = Some(t.clone());
                    format!("set_tooltip({t:?})")
                }
                _ => {
                    if g.chance(2, 3) {
                        m.inline = gen_inline(g);
                        w.set_inline_style(m.inline.clone());
                        "set_inline_style".into()
                    } else {
                        m.inline = StyleOverride::new();
                        w.clear_inline_style();
                        "clear_inline_style".into()
                    }
                }
            });
            log.push(format!("{name} {s}"));
            g.label(metas[i].type_name);
            at(&mut root, i, |w| -> R {
                let now = w.get_meta();
                let inline = w.inline_style().cloned().unwrap_or_default();
                if w.is_visible() && (now.classes != before.0.classes || now.states != before.0.states || inline != before.1) {
                    ensure!(w.is_dirty(), "what styles the widget changed, but it is not marked to be styled again");
                }
                Ok(())
            })?;
            for (i, m) in model.iter().enumerate() {
                at(&mut root, i, |w| -> R {
                    let (name, meta) = (metas[i].type_name, w.get_meta());
                    if let Some(set) = &m.classes {
                        for c in CLASSES {
                            let want = set.contains(*c);
                            ensure_eq!((w.has_class(c), w.classes().iter().any(|d| d == c), meta.classes.iter().any(|d| d == c)), (want, want, want), "{name}: class {c} (has_class, classes, meta)");
                        }
                    }
                    for (told, flag) in [(m.disabled, WidgetStates::DISABLED), (m.hovered, WidgetStates::HOVER), (m.active, WidgetStates::ACTIVE), (m.focused, WidgetStates::FOCUS)] {
                        if let Some(x) = told {
                            ensure_eq!((w.get_state().contains(flag), meta.states.contains(flag)), (x, x), "{name}: {flag:?} (get_state, meta)");
                        }
                    }
                    if let Some(d) = m.disabled {
                        ensure_eq!(w.is_disabled(), d, "{name}: is_disabled");
                    }
                    if let Some(t) = &m.tooltip {
                        ensure_eq!(w.tooltip(), t.clone(), "{name}: tooltip");
                    }
                    ensure!(w.inline_style().cloned().unwrap_or_default() == m.inline, "{name}: inline style {:?}, told {:?}", w.inline_style(), m.inline);
                    Ok(())
                })?;
            }
        }
        both(&mut root, true);
        let (mut a, mut b) = (vec![], vec![]);
        styles(&mut root, &mut a);
        both(&mut root, false);
        styles(&mut root, &mut b);
        ensure_eq!(a.len(), b.len(), "widgets to be seen");
        for (x, y) in a.iter().zip(&b) {
            ensure!(!x.2, "{} is still marked after restyling", x.0);
            if x.1 != y.1 {
                let (p, q) = (format!("{:#?}", x.1), format!("{:#?}", y.1));
                let d: Vec<String> = p.lines().zip(q.lines()).filter(|(x, y)| x != y).take(4).map(|(x, y)| format!("{} (styled from scratch: {})", x.trim(), y.trim())).collect();
                return Err(crate::engine::Fail(format!("{}: restyled where marked: {}", x.0, d.join("; "))));
            }
        }
        Ok(())
    })();
    run.map_err(|f| crate::engine::Fail(format!("{}\n  style sheet:\n{own}  history:\n    {}", f.0, log.join("\n    "))))
}

pub static P33: Property = Property {
    id: "C33",
    rule: "histories of at least three changes",
    assumptions: &["each kind of widget is asked only for the attributes it has: classes, id, disabled, focus, hover, pressed, inline style, border titles, tooltip and its own values", "colours and sizes come from the default style sheets and one to six further rules"],
    parts: &[Part { name: "history", quick: 180_000, thorough: 6_000_000, f: history }, Part { name: "parts", quick: 60_000, thorough: 2_000_000, f: parts }],
};
