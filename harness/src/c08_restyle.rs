//! C08: after any history of changes, restyling what is marked dirty leaves every widget with the style the sheet,
//! its state, its ancestors and its inline style give it now.
use crate::c17_tree::*;
use crate::engine::{Fail, G, Part, Property, R};
use crate::sheet;
use crate::{ensure, ensure_eq, fail};
use std::collections::VecDeque;
use tcss::parser::StyleSheet;
use tcss::parser::cascade::compute_style;
use tcss::types::{ComputedStyle, RgbaColor, StyleOverride, Theme, Visibility};
use tcss::{WidgetMeta, WidgetStates};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::tree::{WidgetTree, clear_all_hover};
use textual::widget::button::Button;
use textual::widget::switch::Switch;
use textual::{Container, Input, Label, OptionList, Size, Static, Widget};

/// What a child takes over from its parent.
#[derive(Clone)]
struct Inh {
    color: Option<RgbaColor>,
    auto: bool,
    background: Option<RgbaColor>,
    visibility: Visibility,
}

struct Ctx<'a> {
    sheet: &'a StyleSheet,
    theme: &'a Theme,
    /// ancestors, nearest first
    chain: Vec<WidgetMeta>,
    seen: usize,
    err: Option<String>,
}

fn reference(w: &mut dyn Widget<Msg>, inh: &Inh, cx: &mut Ctx) {
    if !w.is_visible() || cx.err.is_some() {
        return;
    }
    cx.seen += 1;
    let meta = w.get_meta();
    let mut want: ComputedStyle = compute_style(&meta, &cx.chain, cx.sheet, cx.theme);
    if want.color.is_none() && inh.color.is_some() {
        want.color = inh.color.clone();
        want.auto_color = inh.auto;
    }
    want.inherited_background = inh.background.clone();
    if !want.visibility_set {
        want.visibility = inh.visibility;
    }
    if let Some(i) = w.inline_style() {
        if let Some(c) = &i.color {
            want.color = Some(c.clone());
            want.auto_color = c.auto;
        }
        if i.background.is_some() {
            want.background = i.background.clone();
        }
        if i.tint.is_some() {
            want.tint = i.tint.clone();
        }
        if i.background_tint.is_some() {
            want.background_tint = i.background_tint.clone();
        }
    }
    let got = w.get_style();
    if got != want {
        let (a, b) = (format!("{got:#?}"), format!("{want:#?}"));
        let d: Vec<String> = a.lines().zip(b.lines()).filter(|(x, y)| x != y).take(3).map(|(x, y)| format!("{} (expected {})", x.trim(), y.trim())).collect();
        cx.err = Some(format!("{} id={:?} classes={:?} states={:?} below {:?}: {}", meta.type_name, meta.id, meta.classes, meta.states, cx.chain.iter().map(|m| m.type_name).collect::<Vec<_>>(), d.join("; ")));
        return;
    }
    let below = match (&want.background, &inh.background) {
        (Some(b), Some(p)) if b.a < 1.0 => Some(b.blend_over(p)),
        (Some(b), _) => Some(b.clone()),
        (None, p) => p.clone(),
    };
    let below = match (&want.background, &want.background_tint, below) {
        (Some(_), Some(t), Some(b)) => Some(b.tint(t)),
        (_, _, b) => b,
    };
    let next = Inh { color: want.color, auto: want.auto_color, background: below, visibility: want.visibility };
    cx.chain.insert(0, meta);
    w.for_each_child(&mut |c| reference(c, &next, cx));
    cx.chain.remove(0);
}

/// Every widget with its ancestors, nearest first.
fn metas(w: &mut dyn Widget<Msg>, chain: &mut Vec<WidgetMeta>, out: &mut Vec<(WidgetMeta, Vec<WidgetMeta>)>) {
    let m = w.get_meta();
    out.push((m.clone(), chain.clone()));
    chain.insert(0, m);
    w.for_each_child(&mut |c| metas(c, chain, out));
    chain.remove(0);
}

const EXTRA: &[&str] = &["x", "y", "wide", "x-y"];

fn compound(g: &mut G, m: &WidgetMeta) -> String {
    let mut s = String::new();
    if g.chance(2, 3) {
        s.push_str(*g.of(&m.type_names));
    } else if g.chance(1, 3) {
        s.push('*');
    }
    if let Some(id) = &m.id {
        if g.chance(1, 3) {
            s.push_str(&format!("#{id}"));
        }
    }
    let mut pool: Vec<String> = m.classes.clone();
    pool.extend(EXTRA.iter().map(|c| c.to_string()));
    match m.type_name {
        "Button" => pool.extend(["-primary", "-default", "-error", "-style-flat", "-style-default", "-textual-compact"].map(String::from)),
        "Screen" => pool.extend(["-wide", "-narrow", "-tall", "-short"].map(String::from)),
        "Static" => pool.extend(["option-list--option-highlighted", "option-list--option"].map(String::from)),
        _ => {}
    }
    if g.chance(1, 2) {
        s.push_str(&format!(".{}", g.of(&pool)));
    }
    if g.chance(1, 3) {
        s.push_str(&format!(":{}", g.of(sheet::PSEUDO).0));
    }
    if s.is_empty() {
        s.push('*');
    }
    s
}

fn selector(g: &mut G, m: &WidgetMeta, chain: &[WidgetMeta]) -> String {
    let mut s = compound(g, m);
    let mut from = 0;
    for _ in 0..g.weighted(&[3, 3, 1]) {
        if from >= chain.len() {
            break;
        }
        let child = g.bool();
        let i = if child { from } else { g.usize(from, chain.len() - 1) };
        s = format!("{}{}{s}", compound(g, &chain[i]), if child { " > " } else { " " });
        from = i + 1;
    }
    s
}

fn declaration(g: &mut G, th: &Theme) -> String {
    match g.weighted(&[4, 4, 2, 2, 5]) {
        0 => format!("color: {}", sheet::color(g, th).0.join(" ")),
        1 => format!("background: {}", sheet::color(g, th).0.join(" ")),
        2 => format!("background-tint: {}", sheet::color(g, th).0.join(" ")),
        3 => format!("visibility: {}", g.pick(&["hidden", "visible"])),
        _ => {
            let d = sheet::decl(g, th);
            sheet::decl_text(g, &d, false)
        }
    }
}

fn override_(g: &mut G) -> StyleOverride {
    let mut s = StyleOverride::new();
    let c = |g: &mut G| if g.chance(1, 8) { RgbaColor::auto(1.0) } else { RgbaColor::rgba(g.u8(), g.u8(), g.u8(), if g.bool() { 1.0 } else { 0.5 }) };
    if g.bool() {
        s = s.color(c(g));
    }
    if g.bool() {
        s = s.background(c(g));
    }
    if g.chance(1, 4) {
        s = s.tint(c(g));
    }
    if g.chance(1, 4) {
        s = s.background_tint(c(g));
    }
    s
}

fn check(t: &mut WidgetTree<Msg>, sheet: &StyleSheet, theme: &Theme) -> R {
    let mut cx = Ctx { sheet, theme, chain: vec![], seen: 0, err: None };
    let color = theme.colors.get("foreground").or(theme.colors.get("text")).cloned();
    reference(t.root_mut(), &Inh { color, auto: false, background: None, visibility: Visibility::Visible }, &mut cx);
    match cx.err {
        Some(e) => fail!("{e}"),
        None => Ok(()),
    }
}

fn has_inline(kind: Kind) -> bool {
    !matches!(kind, Kind::Center | Kind::Middle)
}

/// One change; its description, or nothing where the widget cannot take it.
fn change(g: &mut G, t: &mut WidgetTree<Msg>, model: &mut Node, log: &Shared, hot: &mut Option<Path>) -> Result<Option<String>, Fail> {
    let all: Vec<(Path, Kind)> = nodes(model).into_iter().map(|(p, n)| (p, n.kind)).collect();
    // Come back to the same widget more often than not.
    let (path, kind) = match all.iter().find(|(p, _)| hot.as_ref() == Some(p)) {
        Some(x) if g.bool() => x.clone(),
        _ => g.of(&all).clone(),
    };
    *hot = Some(path.clone());
    let class = g.pick(EXTRA);
    let pick = g.weighted(&[3, 2, 2, 2, 3, 2, 3, 3, 3, 2, 3, 2, 6]);
    Ok(Some(match pick {
        0 => {
            let have = widget_at(t, &path, |w| {
                w.add_class(class);
                w.has_class(class)
            });
            ensure!(have || !kind.has_classes(), "{path:?} {kind:?} lacks the class {class} just added");
            format!("{path:?} add_class({class})")
        }
        1 => {
            let have = widget_at(t, &path, |w| {
                w.remove_class(class);
                w.has_class(class)
            });
            ensure!(!have, "{path:?} {kind:?} still has the class {class} just removed");
            format!("{path:?} remove_class({class})")
        }
        2 => {
            let (was, is) = widget_at(t, &path, |w| {
                let was = w.has_class(class);
                w.toggle_class(class);
                (was, w.has_class(class))
            });
            ensure!(was != is || !kind.has_classes(), "{path:?} {kind:?}: toggling {class} left it {was}");
            format!("{path:?} toggle_class({class})")
        }
        3 => {
            let list = g.vec(0, 3, |g| g.pick(EXTRA)).join(" ");
            let missing = widget_at(t, &path, |w| {
                w.set_classes(&list);
                let want: Vec<&str> = list.split_whitespace().collect();
                EXTRA.iter().find(|c| w.has_class(c) != want.contains(c)).copied()
            });
            ensure!(missing.is_none() || !kind.has_classes(), "{path:?} {kind:?}: class {missing:?} after set_classes({list})");
            format!("{path:?} set_classes({list})")
        }
        4 => {
            let s = override_(g);
            let got = widget_at(t, &path, |w| {
                w.set_inline_style(s.clone());
                w.inline_style().cloned()
            });
            ensure!(got.clone().unwrap_or_default() == s || !has_inline(kind), "{path:?} {kind:?}: inline style {got:?} after set_inline_style({s:?})");
            format!("{path:?} set_inline_style({s:?})")
        }
        5 => {
            let got = widget_at(t, &path, |w| {
                w.clear_inline_style();
                w.inline_style().cloned()
            });
            ensure!(got.as_ref().is_none_or(|s| *s == StyleOverride::default()), "{path:?} {kind:?}: inline style {got:?} after clear_inline_style");
            format!("{path:?} clear_inline_style")
        }
        6 => {
            let d = g.bool();
            let got = widget_at(t, &path, |w| {
                w.set_disabled(d);
                w.is_disabled()
            });
            ensure!(got == d || !kind.can_disable(), "{path:?} {kind:?}: disabled is {got} after set_disabled({d})");
            format!("{path:?} set_disabled({d})")
        }
        7 => {
            let v = g.bool();
            let got = widget_at(t, &path, |w| {
                w.set_visible(v);
                w.is_visible()
            });
            ensure!(got == v || !kind.can_hide(), "{path:?} {kind:?}: visible is {got} after set_visible({v})");
            format!("{path:?} set_visible({v})")
        }
        8 => {
            let got = if g.bool() { t.focus_next() } else { t.focus_previous() };
            format!("focus moved to {got:?}")
        }
        9 => {
            clear_all_hover(t.root_mut());
            for (p, n) in nodes(model) {
                let st = widget_at(t, &p, |w| w.get_meta().states);
                ensure!(!st.contains(WidgetStates::HOVER), "{p:?} {:?} is still hovered after clear_all_hover", n.kind);
            }
            "clear_all_hover".to_string()
        }
        10 => {
            let h = g.chance(2, 3);
            let active = g.bool();
            let flag = if active { WidgetStates::ACTIVE } else { WidgetStates::HOVER };
            let (was, changed, is, disabled) = widget_at(t, &path, |w| {
                let was = w.get_meta().states.contains(flag);
                let changed = if active { w.set_active(h) } else { w.set_hover(h) };
                (was, changed, w.get_meta().states.contains(flag), w.is_disabled())
            });
            let able = match kind {
                Kind::Button | Kind::Switch => true,
                Kind::Leaf => !active,
                _ => false,
            };
            if able && !disabled {
                ensure_eq!(is, h, "{path:?} {kind:?}: {flag:?} after it was set to {h}");
                ensure_eq!(changed, was != h, "{path:?} {kind:?}: whether setting {flag:?} from {was} to {h} changed anything");
            }
            format!("{path:?} set {flag:?} {h}")
        }
        11 => {
            let size = Size { width: *g.of(&[20, 79, 80, 81, 120]), height: *g.of(&[10, 23, 24, 40]) };
            t.root_mut().on_resize(size);
            format!("resized to {size:?}")
        }
        _ => {
            let k = g.below(4);
            let flag = g.bool();
            let text = g.pick(&["a", "b\nc", ""]);
            let variant = g.pick(&["default", "primary", "error"]);
            let n = g.usize(0, 3);
            let plain = nodes(model).into_iter().any(|(p, n)| p == path && n.wrap.is_none());
            let mut done = None;
            let new_kids: Option<Vec<Node>> = (kind == Kind::Container && plain).then(|| {
                let mut next = 100 + g.usize(0, 100);
                g.vec(0, 3, |g| leaf(g, &mut next))
            });
            let replaced = new_kids.clone();
            let built: Option<Vec<_>> = new_kids.map(|k| k.iter().map(|n| build(n, log)).collect());
            widget_at(t, &path, |w| {
                let Some(any) = w.as_any_mut() else { return };
                if let Some(b) = any.downcast_mut::<Button<Msg>>() {
                    match k {
                        0 => b.set_variant(variant),
                        1 => b.set_flat(flag),
                        2 => b.set_compact(flag),
                        _ => b.set_label(text),
                    }
                    done = Some(format!("{path:?} button setter {k} {variant} {flag}"));
                } else if let Some(s) = any.downcast_mut::<Static<Msg>>() {
                    if flag {
                        s.add_class(class);
                    } else {
                        s.update(text);
                    }
                    done = Some(format!("{path:?} Static {flag} {class} {text:?}"));
                } else if let Some(l) = any.downcast_mut::<Label<Msg>>() {
                    l.update(text);
                    done = Some(format!("{path:?} Label update"));
                } else if let Some(s) = any.downcast_mut::<Switch<Msg, fn(bool) -> Msg>>() {
                    s.set_value(flag);
                    done = Some(format!("{path:?} Switch set_value({flag})"));
                } else if let Some(i) = any.downcast_mut::<Input<Msg>>() {
                    i.set_value(text);
                    done = Some(format!("{path:?} Input set_value"));
                } else if let Some(o) = any.downcast_mut::<OptionList<Msg>>() {
                    match k {
                        0 => o.set_items(vec!["q".to_string(); n]),
                        _ => o.set_selected(n),
                    }
                    done = Some(format!("{path:?} OptionList setter {k} {n}"));
                } else if let Some(c) = any.downcast_mut::<Container<Msg>>() {
                    c.set_children(built.unwrap());
                    done = Some(format!("{path:?} set_children"));
                }
            });
            if kind == Kind::Container && plain && done.is_some() {
                let kids = replaced.unwrap();
                done = Some(format!("{path:?} set_children {:?}", kids.iter().map(|k| k.kind).collect::<Vec<_>>()));
                at(model, &path).kids = kids;
            }
            return Ok(done);
        }
    }))
}

fn restyle(g: &mut G) -> R {
    let (mut model, mut t, log) = start(g);
    let theme = sheet::theme(g);
    let mut list = vec![];
    metas(t.root_mut(), &mut vec![], &mut list);
    let mut text = String::new();
    for _ in 0..g.usize(1, 8) {
        let (m, chain) = g.of(&list).clone();
        let sel = selector(g, &m, &chain);
        let decls = g.vec(1, 3, |g| declaration(g, &theme));
        text.push_str(&format!("{sel} {{ {}; }}\n", decls.join("; ")));
    }
    g.note(|| format!("theme {} dark={}\n{text}", theme.name, theme.is_dark));
    let sheet = match tcss::parser::parse_stylesheet(&text) {
        Ok(s) => s,
        Err(e) => fail!("sheet rejected: {e:?}"),
    };
    resolve_styles(t.root_mut(), &sheet, &theme, &mut VecDeque::new());
    check(&mut t, &sheet, &theme)?;
    let mut restyled = 0;
    let mut hot = None;
    for _ in 0..g.usize(1, 6) {
        let before = snapshot(&mut t);
        for _ in 0..g.usize(1, 3) {
            if let Some(what) = change(g, &mut t, &mut model, &log, &mut hot)? {
                g.note(|| what);
            }
        }
        g.note(|| "-- restyle".into());
        resolve_dirty_styles(t.root_mut(), &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::from_theme(&theme));
        check(&mut t, &sheet, &theme)?;
        states(&mut t, &model)?;
        restyled += (snapshot(&mut t) != before) as usize;
    }
    // Styling everything anew changes nothing.
    resolve_styles(t.root_mut(), &sheet, &theme, &mut VecDeque::new());
    check(&mut t, &sheet, &theme)?;
    g.key(&(&text, format!("{model:?}")));
    g.label_if(restyled >= 2, "several restyles changed a style");
    g.nontrivial_if(restyled > 0);
    Ok(())
}

fn snapshot(t: &mut WidgetTree<Msg>) -> Vec<ComputedStyle> {
    fn go(w: &mut dyn Widget<Msg>, out: &mut Vec<ComputedStyle>) {
        out.push(w.get_style());
        w.for_each_child(&mut |c| go(c, out));
    }
    let mut v = vec![];
    go(t.root_mut(), &mut v);
    v
}

/// The states and classes selectors see are the widget's own.
fn states(t: &mut WidgetTree<Msg>, model: &Node) -> R {
    for (p, n) in nodes(model) {
        if n.kind.can_disable() {
            let (m, f, d) = widget_at(t, &p, |w| (w.get_meta(), w.is_focused(), w.is_disabled()));
            ensure_eq!(m.states.contains(WidgetStates::FOCUS), f, "{p:?} {:?}: :focus", n.kind);
            ensure_eq!(m.states.contains(WidgetStates::DISABLED), d, "{p:?} {:?}: :disabled", n.kind);
        }
        let (mut a, mut b) = widget_at(t, &p, |w| (w.get_meta().classes, w.classes()));
        if n.kind != Kind::Screen {
            a.sort();
            a.dedup();
            b.sort();
            b.dedup();
            ensure_eq!(a, b, "{p:?} {:?}: classes seen by selectors", n.kind);
        }
    }
    Ok(())
}

pub const P08: Property = Property {
    id: "C08",
    rule: "at least one restyle of the history changed the style of a widget",
    assumptions: &["the application's own widgets mark themselves dirty when they change, as the Widget contract asks", "hidden widgets are left alone until they are shown again"],
    parts: &[Part { name: "restyle", quick: 200_000, thorough: 3_000_000, f: restyle }],
};
