//! C07: stylesheet variables and theme colours.
use crate::engine::*;
use crate::sheet::*;
use crate::{ensure, fail};
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::*;

const VARS: &[&str] = &["a", "a-b", "pad", "accent_1", "primary", "primary-x", "main-colour", "b", "c2"];

fn widget() -> WidgetMeta {
    WidgetMeta { type_name: "Label", type_names: vec!["Label"], ..Default::default() }
}

/// Replace tokens of declarations with (possibly chained) variables; the result must equal the sheet with the values written out.
fn substitution(g: &mut G) -> R {
    let th = theme(g);
    let mut free: Vec<&str> = VARS.to_vec();
    g.shuffle(&mut free);
    let mut defs: Vec<(String, String)> = vec![];
    let mut bodies: Vec<(Vec<Decl>, String)> = vec![];
    let mut want = observe(&ComputedStyle::default());
    let mut chained = false;
    for _ in 0..g.usize(1, 3) {
        // theme references would be captured by a variable of the same name, so these declarations avoid them
        let decls = g.vec(1, 3, |g| decl(g, &Theme::new("x", true)));
        let mut text = String::new();
        for dl in &decls {
            let mut toks = dl.tokens.clone();
            let quoted = dl.prop == "hatch";
            for t in toks.iter_mut() {
                if !quoted && !free.is_empty() && g.chance(1, 2) && !t.contains(['$', ';', '"']) {
                    // reuse an existing variable with this very value, or define one
                    let name = match defs.iter().find(|d| d.1 == *t) {
                        Some(dv) if g.bool() => dv.0.clone(),
                        _ => {
                            let n = free.pop().unwrap().to_string();
                            defs.push((n.clone(), t.clone()));
                            n
                        }
                    };
                    *t = format!("${name}");
                }
            }
            if !quoted && dl.tokens.len() > 1 && !free.is_empty() && g.chance(1, 6) && !dl.tokens.concat().contains(['$', ';', '"']) {
                let n = free.pop().unwrap().to_string();
                defs.push((n.clone(), toks.join(" ")));
                chained |= toks.iter().any(|t| t.starts_with('$'));
                toks = vec![format!("${n}")];
            }
            let d2 = Decl { prop: dl.prop, tokens: toks, assigns: vec![] };
            text.push_str(&decl_text(g, &d2, true));
            text.push(';');
            text.push_str(&ws(g, false, true));
        }
        for dl in &decls {
            apply(&mut want, dl);
        }
        bodies.push((decls, text));
    }
    // indirection: $v: $w; $w: value
    for i in 0..defs.len() {
        if !free.is_empty() && g.chance(1, 4) {
            let n = free.pop().unwrap().to_string();
            let v = std::mem::replace(&mut defs[i].1, format!("${n}"));
            defs.push((n, v));
            chained = true;
        }
    }
    g.shuffle(&mut defs);
    // definitions stand anywhere at top level, on their own lines or not
    let mut chunks: Vec<String> = bodies.iter().map(|b| format!("Label{{{}}}", b.1)).collect();
    let rules = chunks.len();
    for (n, v) in &defs {
        let end = g.pick(&[";", " ;", ";\n", "\n"]);
        let sep = g.pick(&["", " ", "  "]);
        let c0 = g.pick(&["", " "]);
        let at = g.usize(0, chunks.len());
        chunks.insert(at, format!("${n}{c0}:{sep}{v}{end}"));
    }
    let text = chunks.join(g.pick(&["\n", " ", ""]));
    g.key(&text);
    g.nontrivial_if(!defs.is_empty());
    g.label_if(chained, "variable used in a variable");
    g.label_if(rules > 1, "several rules");
    g.note(|| text.clone());
    let sheet = match parse_stylesheet(&text) {
        Ok(s) => s,
        Err(e) => fail!("rejected: {e:?}"),
    };
    let got = observe(&compute_style(&widget(), &[], &sheet, &th));
    if let Some(m) = diff(&got, &want) {
        fail!("{m}");
    }
    Ok(())
}

/// Cycles end; an undefined name is left to the theme.
fn cycles(g: &mut G) -> R {
    let n = g.usize(1, 4);
    let names: Vec<&str> = VARS[..n].to_vec();
    let mut text = String::new();
    for v in &names {
        let to = if g.bool() { format!("${}", g.of(&names)) } else { g.pick(&["red", "12", "$primary 40%", "$nope"]).to_string() };
        text.push_str(&format!("${v}: {to};\n"));
    }
    text.push_str(&format!("Label {{ color: ${}; width: ${}; text-style: ${}; }}", g.of(&names), g.of(&names), g.of(&names)));
    g.key(&text);
    g.nontrivial_if(true);
    g.note(|| text.clone());
    let r = parse_stylesheet(&text);
    g.label_if(r.is_ok(), "accepted");
    if let Ok(s) = r {
        let _ = observe(&compute_style(&widget(), &[], &s, &Theme::new("t", true)));
    }
    Ok(())
}

/// `$name` takes the theme's colour: the same sheet under two themes differs exactly in those longhands.
fn theming(g: &mut G) -> R {
    let t1 = theme(g);
    let mut t2 = t1.clone();
    let mut names: Vec<String> = t1.colors.keys().cloned().collect();
    names.sort();
    for n in &names {
        t2.colors.insert(n.clone(), RgbaColor::rgb(g.u8(), g.u8(), g.u8()));
    }
    t2.name = "other".into();
    // one sheet; expected styles under each theme are computed from the same declarations
    let mut decls: Vec<(Decl, Decl)> = vec![];
    for _ in 0..g.usize(1, 4) {
        let d1 = decl(g, &t1);
        // the same tokens under t2
        let mut d2 = d1.clone();
        if let Some(i) = d1.tokens.iter().position(|t| t.starts_with('$')) {
            let name = d1.tokens[i][1..].to_string();
            if let (Some(a), Some(b)) = (t1.colors.get(&name), t2.colors.get(&name)) {
                let pct = d1.tokens.get(i + 1).filter(|t| t.ends_with('%')).map(|t| t[..t.len() - 1].parse::<f32>().unwrap() / 100.0);
                let fix = |c: &RgbaColor| {
                    let mut c = c.clone();
                    if let Some(p) = pct {
                        c.a = p;
                    }
                    c
                };
                let (ka, kb) = (ckey(&fix(a)), ckey(&fix(b)));
                for (k, v) in d2.assigns.iter_mut() {
                    if let Val::Set(s) = v {
                        if *k == "auto_color" {
                            *s = format!("{:?}", b.auto);
                        }
                        *s = s.replace(&ka, &kb);
                    }
                }
            } else {
                continue;
            }
        }
        decls.push((d1, d2));
    }
    let ds: Vec<Decl> = decls.iter().map(|x| x.0.clone()).collect();
    let text = format!("Label {{ {} }}", body_text(g, &ds, false));
    g.key(&text);
    g.nontrivial_if(text.contains('$'));
    g.note(|| format!("{text}\n t1 {:?}\n t2 {:?}", t1.colors, t2.colors));
    let sheet = parse_stylesheet(&text).map_err(|e| Fail(format!("rejected: {e:?}")))?;
    for (th, pick) in [(&t1, 0), (&t2, 1)] {
        let mut want = observe(&ComputedStyle::default());
        for dl in &decls {
            apply(&mut want, if pick == 0 { &dl.0 } else { &dl.1 });
        }
        let got = observe(&compute_style(&widget(), &[], &sheet, th));
        if let Some(m) = diff(&got, &want) {
            fail!("theme {}: {m}", th.name);
        }
    }
    Ok(())
}

fn ckey(c: &RgbaColor) -> String {
    let st = ComputedStyle { color: Some(c.clone()), ..Default::default() };
    observe(&st)["color"].clone()
}

/// A colour of the reference palette: channels and alpha, or an automatic colour of that alpha.
#[derive(Clone, Copy, Debug)]
enum Ink {
    C([f64; 3], f64),
    Auto(f64),
}
use Ink::*;

fn ink(c: &RgbaColor) -> Ink {
    C([c.r as f64, c.g as f64, c.b as f64], c.a as f64)
}
fn lerp(a: [f64; 3], b: [f64; 3], t: f64) -> [f64; 3] {
    std::array::from_fn(|i| a[i] + (b[i] - a[i]) * t)
}
impl Ink {
    fn rgb(self) -> [f64; 3] {
        let C(c, _) = self else { panic!("automatic") };
        c
    }
    fn alpha(self, a: f64) -> Ink {
        C(self.rgb(), a)
    }
    fn mix(self, other: Ink, t: f64) -> Ink {
        let (C(c, a), C(d, b)) = (self, other) else { panic!("automatic") };
        C(lerp(c, d, t), a + (b - a) * t)
    }
    fn is(self, c: &RgbaColor) -> bool {
        // Shades pass through Lab space and are truncated, so do colours mixed from them.
        match self {
            Auto(a) => c.auto && (c.a as f64 - a).abs() < 0.006,
            C(w, a) => !c.auto && (c.a as f64 - a).abs() < 0.006 && (a == 0.0 || [c.r, c.g, c.b].iter().zip(w).all(|(x, w)| (*x as f64 - w).abs() <= 3.1)),
        }
    }
}

struct Given {
    primary: Ink,
    secondary: Ink,
    warning: Ink,
    error: Ink,
    success: Ink,
    accent: Ink,
    foreground: Ink,
    background: Ink,
    surface: Ink,
    panel: Ink,
    boost: Ink,
    dark: bool,
}

fn black_or_white(c: Ink) -> Option<[f64; 3]> {
    let [r, g, b] = c.rgb();
    let y = (0.299 * r + 0.587 * g + 0.114 * b) / 255.0;
    if (y - 0.5).abs() < 0.012 {
        return None; // either will do
    }
    Some(if y < 0.5 { [255.0; 3] } else { [0.0; 3] })
}

/// Everything a theme derives from its base colours (shades apart).
fn derived(p: &Given, text_alpha: f64, ansi: bool) -> Vec<(String, Ink)> {
    let mut v: Vec<(String, Ink)> = vec![];
    let mut put = |n: &str, i: Ink| v.push((n.to_string(), i));
    let none = C([0.0; 3], 0.0);
    let text = if ansi { p.foreground } else { Auto(0.87) };
    let six = [("primary", p.primary), ("secondary", p.secondary), ("warning", p.warning), ("error", p.error), ("success", p.success), ("accent", p.accent)];
    for (n, c) in six {
        put(n, c);
        if let Some(bw) = black_or_white(p.background) {
            put(&format!("text-{n}"), C(lerp(bw, c.rgb(), 0.66), text_alpha));
        }
        put(&format!("{n}-muted"), c.mix(p.background, 0.7));
    }
    for (n, c) in [("foreground", p.foreground), ("background", p.background), ("surface", p.surface), ("panel", p.panel), ("boost", p.boost)] {
        put(n, c);
    }
    put("foreground-muted", p.foreground.alpha(0.6));
    put("foreground-disabled", p.foreground.alpha(0.38));
    put("text", text);
    put("text-muted", if ansi { p.foreground } else { Auto(0.6) });
    put("text-disabled", if ansi { p.foreground } else { Auto(0.38) });
    for n in ["link-color", "link-color-hover", "block-cursor-foreground", "button-color-foreground"] {
        put(n, text);
    }
    for n in ["scrollbar-active", "link-background-hover", "border", "block-cursor-background", "markdown-h1-color", "markdown-h2-color", "markdown-h3-color"] {
        put(n, p.primary);
    }
    for n in ["block-cursor-blurred-foreground", "footer-foreground", "footer-description-foreground", "input-cursor-background", "markdown-h4-color", "markdown-h5-color", "button-foreground"] {
        put(n, p.foreground);
    }
    put("markdown-h6-color", p.foreground.alpha(0.6));
    put("footer-background", p.panel);
    put("footer-key-foreground", p.accent);
    put("input-cursor-foreground", p.background);
    put("input-selection-background", p.primary.alpha(0.4));
    put("block-cursor-blurred-background", p.primary.alpha(0.3));
    put("block-hover-background", p.boost.alpha(0.1));
    for n in ["link-background", "footer-key-background", "footer-description-background", "footer-item-background"] {
        put(n, none);
    }
    for i in 1..=6 {
        put(&format!("markdown-h{i}-background"), none);
    }
    v
}

const STYLES: &[(&str, &str)] = &[
    ("link-style", "underline"),
    ("link-style-hover", "bold"),
    ("block-cursor-text-style", "bold"),
    ("block-cursor-blurred-text-style", ""),
    ("input-cursor-text-style", ""),
    ("markdown-h1-text-style", "bold"),
    ("markdown-h2-text-style", "underline"),
    ("markdown-h3-text-style", "bold"),
    ("markdown-h4-text-style", "bold underline"),
    ("markdown-h5-text-style", "bold"),
    ("markdown-h6-text-style", "bold"),
    ("button-focus-text-style", "bold reverse"),
];

/// What holds of every theme that has been generated from base colours.
fn consistent(th: &Theme, p: &Given, text_alpha: f64, spread: f64, ansi: bool) -> R {
    for (n, want) in derived(p, text_alpha, ansi) {
        let Some(c) = th.get_color(&n) else { fail!("theme {} has no `{n}`", th.name) };
        ensure!(want.is(&c), "theme {}: `{n}` is {c:?}, want {want:?}", th.name);
    }
    // shades: the lightness moves by half the spread each
    let step = spread / 2.0;
    for base in ["primary", "secondary", "accent", "warning", "error", "success", "surface", "panel", "background", "foreground", "boost", "primary-background", "secondary-background"] {
        let Some(c0) = th.get_color(base) else { fail!("theme {} has no `{base}`", th.name) };
        for k in 1..=3 {
            for (way, sign) in [("lighten", 1.0), ("darken", -1.0)] {
                let n = format!("{base}-{way}-{k}");
                let Some(c) = th.get_color(&n) else { fail!("theme {} has no `{n}`", th.name) };
                let d = sign * k as f64 * step;
                let want = if base.ends_with("-background") && p.dark {
                    let origin = if base.starts_with("primary") { p.primary } else { p.secondary };
                    let ground = lerp(p.background.rgb(), origin.rgb(), 0.15);
                    C(lerp(ground, [255.0; 3], (spread + d).clamp(0.0, 1.0)), 1.0)
                } else {
                    let given = match base {
                        "primary" | "primary-background" => p.primary,
                        "secondary" | "secondary-background" => p.secondary,
                        "accent" => p.accent,
                        "warning" => p.warning,
                        "error" => p.error,
                        "success" => p.success,
                        "surface" => p.surface,
                        "panel" => p.panel,
                        "background" => p.background,
                        "foreground" => p.foreground,
                        _ => p.boost,
                    };
                    let C(x, a) = given else { panic!() };
                    ink(&RgbaColor::rgba(x[0].round() as u8, x[1].round() as u8, x[2].round() as u8, a as f32).lighten(d as f32))
                };
                if matches!(want, C(_, a) if a == 0.0) {
                    continue;
                }
                // a mixed panel colour is rounded before it is lightened, which matters at the edge of what can be shown
                ensure!(ansi || near3(want, &c) || (base == "panel" && wide(want, &c)), "theme {}: `{n}` is {c:?}, want {want:?} (`{base}` is {c0:?})", th.name);
            }
        }
    }
    if !ansi {
        let Some(ground) = th.get_color("background-darken-1") else { fail!("no background-darken-1") };
        let ground = ink(&ground);
        for n in ["scrollbar-background", "scrollbar-background-hover", "scrollbar-background-active", "scrollbar-corner-color"] {
            ensure!(th.get_color(n).is_some_and(|c| ground.is(&c)), "theme {}: `{n}` is {:?}, want {ground:?}", th.name, th.get_color(n));
        }
        for (n, t) in [("scrollbar", 0.4), ("scrollbar-hover", 0.5)] {
            let want = C(lerp(ground.rgb(), p.primary.rgb(), t), 1.0);
            ensure!(th.get_color(n).is_some_and(|c| want.is(&c)), "theme {}: `{n}` is {:?}, want {want:?}", th.name, th.get_color(n));
        }
        let surface = |d: f64| {
            let C(x, a) = p.surface else { panic!() };
            ink(&RgbaColor::rgba(x[0].round() as u8, x[1].round() as u8, x[2].round() as u8, a as f32).lighten(d as f32))
        };
        for (n, want) in [("border-blurred", surface(-0.025)), ("surface-active", surface(spread / 2.5))] {
            ensure!(th.get_color(n).is_some_and(|c| near3(want, &c)), "theme {}: `{n}` is {:?}, want {want:?}", th.name, th.get_color(n));
        }
    }
    for (n, want) in STYLES {
        let Some(s) = th.get_style(n) else { fail!("theme {} has no text style `{n}`", th.name) };
        let mut got = vec![];
        for (on, w) in [(s.bold, "bold"), (s.dim, "dim"), (s.italic, "italic"), (s.underline, "underline"), (s.strike, "strike"), (s.reverse, "reverse")] {
            if on {
                got.push(w);
            }
        }
        ensure!(got.join(" ") == *want, "theme {}: text style `{n}` is {got:?}, want {want}", th.name);
    }
    Ok(())
}

/// like `is`, with room for a panel or shade that was itself rounded before it was lightened
fn near3(want: Ink, c: &RgbaColor) -> bool {
    let C(w, a) = want else { return false };
    (c.a as f64 - a).abs() < 0.006 && [c.r, c.g, c.b].iter().zip(w).all(|(x, w)| (*x as f64 - w).abs() <= 3.1)
}

fn wide(want: Ink, c: &RgbaColor) -> bool {
    let C(w, a) = want else { return false };
    (c.a as f64 - a).abs() < 0.006 && [c.r, c.g, c.b].iter().zip(w).all(|(x, w)| (*x as f64 - w).abs() <= 24.0)
}

const BUILT_IN: &[(&str, bool)] = &[
    ("textual-dark", true),
    ("textual-light", false),
    ("nord", true),
    ("gruvbox", true),
    ("catppuccin-mocha", true),
    ("catppuccin-latte", false),
    ("dracula", true),
    ("tokyo-night", true),
    ("monokai", true),
    ("flexoki", true),
    ("solarized-light", false),
    ("solarized-dark", true),
    ("rose-pine", true),
    ("rose-pine-moon", true),
    ("rose-pine-dawn", false),
    ("textual-ansi", true),
];

/// Generated palettes: every documented name exists and is the colour its base colours give; so for the built-in themes.
fn palette(g: &mut G) -> R {
    g.nontrivial_if(true);
    if g.chance(1, 100) {
        let all = Theme::standard_themes();
        let (name, dark) = *g.of(BUILT_IN);
        let Some(th) = all.get(name) else { fail!("no built-in theme `{name}`") };
        g.key(&name);
        g.note(|| format!("built-in {name}"));
        ensure!(th.name == name && th.is_dark == dark, "theme {name} calls itself {} and is_dark is {}", th.name, th.is_dark);
        let of = |n: &str| th.get_color(n).map(|c| ink(&c)).ok_or_else(|| Fail(format!("theme {name} has no `{n}`")));
        let p = Given { primary: of("primary")?, secondary: of("secondary")?, warning: of("warning")?, error: of("error")?, success: of("success")?, accent: of("accent")?, foreground: of("foreground")?, background: of("background")?, surface: of("surface")?, panel: of("panel")?, boost: of("boost")?, dark };
        if name == "textual-ansi" {
            return Ok(());
        }
        let [r, gr, b] = p.background.rgb();
        ensure!(((0.299 * r + 0.587 * gr + 0.114 * b) < 128.0) == dark, "theme {name} is_dark {dark} has the background {:?}", p.background);
        return consistent(th, &p, 0.95, 0.15, false);
    }
    let dark = g.bool();
    let rnd = |g: &mut G| RgbaColor::rgb(g.u8(), g.u8(), g.u8());
    let primary = rnd(g);
    let mut sys = ColorSystem::new(primary.clone(), dark);
    let mut some = |g: &mut G| if g.bool() { Some(rnd(g)) } else { None };
    let (secondary, accent, warning, error, success, foreground, background, surface, panel, boost) = (some(g), some(g), some(g), some(g), some(g), some(g), some(g), some(g), some(g), some(g));
    macro_rules! with {
        ($($c:ident $f:ident),*) => { $( if let Some(c) = &$c { sys = sys.$f(c.clone()); } )* };
    }
    with!(secondary with_secondary, accent with_accent, warning with_warning, error with_error, success with_success, foreground with_foreground, background with_background, surface with_surface, panel with_panel, boost with_boost);
    let (mut spread, mut text_alpha) = (0.15, 0.95);
    if g.chance(1, 4) {
        spread = g.usize(2, 30) as f64 / 100.0;
        sys = sys.with_luminosity_spread(spread as f32);
    }
    if g.chance(1, 4) {
        text_alpha = g.usize(10, 100) as f64 / 100.0;
        sys = sys.with_text_alpha(text_alpha as f32);
    }
    let th = Theme::from_color_system("gen", sys);
    g.key(&(primary.r, primary.g, primary.b, dark));
    g.note(|| format!("primary {primary:?} dark {dark} secondary {secondary:?} background {background:?} surface {surface:?} panel {panel:?} boost {boost:?} spread {spread}"));
    ensure!(th.is_dark == dark, "theme darkness");
    let or = |c: &Option<RgbaColor>, d: Ink| c.as_ref().map(ink).unwrap_or(d);
    let grey = |n: f64| C([n; 3], 1.0);
    let prim = ink(&primary);
    let sec = or(&secondary, prim);
    let bg = or(&background, if dark { grey(18.0) } else { grey(239.0) });
    let surf = or(&surface, if dark { grey(30.0) } else { grey(245.0) });
    let Some(bw) = black_or_white(bg) else { return Ok(()) };
    let boost_ = or(&boost, C(bw, 0.04));
    let C(bc, ba) = boost_ else { panic!() };
    let panel_ = or(&panel, {
        let c = lerp(surf.rgb(), prim.rgb(), 0.1);
        C(if dark { lerp(c, bc, ba) } else { c }, 1.0)
    });
    let given = Given { primary: prim, secondary: sec, warning: or(&warning, prim), error: or(&error, sec), success: or(&success, sec), accent: or(&accent, prim), foreground: or(&foreground, C(bg.rgb().map(|x| 255.0 - x), 1.0)), background: bg, surface: surf, panel: panel_, boost: boost_, dark };
    consistent(&th, &given, text_alpha, spread, false)?;
    let lum = |c: &RgbaColor| 0.2126 * c.r as f64 + 0.7152 * c.g as f64 + 0.0722 * c.b as f64;
    for base in ["primary", "secondary", "accent", "warning", "error", "success"] {
        let names = [format!("{base}-darken-3"), format!("{base}-darken-2"), format!("{base}-darken-1"), base.to_string(), format!("{base}-lighten-1"), format!("{base}-lighten-2"), format!("{base}-lighten-3")];
        let mut prev: Option<(String, f64)> = None;
        for n in names {
            let Some(c) = th.get_color(&n) else { fail!("theme has no `{n}`") };
            let l = lum(&c);
            if let Some((pn, pl)) = &prev {
                ensure!(l + 2.5 >= *pl, "{n} ({c:?}) is darker than {pn}");
            }
            prev = Some((n, l));
        }
    }
    Ok(())
}

pub const P: Property = Property {
    id: "C07",
    rule: "substitution: at least one variable definition; theming: the sheet refers to a theme name; cycles and palette: every case",
    assumptions: &["each variable is defined once; a variable definition ends at ';' or the end of its line"],
    parts: &[
        Part { name: "substitution", quick: 480_000, thorough: 2_400_000, f: substitution },
        Part { name: "cycles", quick: 160_000, thorough: 800_000, f: cycles },
        Part { name: "theming", quick: 320_000, thorough: 1_600_000, f: theming },
        Part { name: "palette", quick: 80_000, thorough: 400_000, f: palette },
    ],
};
