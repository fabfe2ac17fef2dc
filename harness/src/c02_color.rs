//! C02: colour notations and colour arithmetic against double-precision references.
use crate::common::*;
use crate::csscolors::CSS;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use tcss::types::RgbaColor;

fn near(a: u8, b: f64) -> bool {
    // stored channels may truncate or round
    (a as f64 - b).abs() <= 1.0 + 1e-3
}

fn hsl_ref(h: f64, s: f64, l: f64) -> (f64, f64, f64) {
    let c = (1.0 - (2.0 * l - 1.0).abs()) * s;
    let hp = (h.rem_euclid(360.0)) / 60.0;
    let x = c * (1.0 - (hp.rem_euclid(2.0) - 1.0).abs());
    let (r, g, b) = match hp as i32 {
        0 => (c, x, 0.0),
        1 => (x, c, 0.0),
        2 => (0.0, c, x),
        3 => (0.0, x, c),
        4 => (x, 0.0, c),
        _ => (c, 0.0, x),
    };
    let m = l - c / 2.0;
    ((r + m) * 255.0, (g + m) * 255.0, (b + m) * 255.0)
}

fn pad(g: &mut G) -> &'static str {
    g.pick(&["", " ", "  "])
}

fn notation(g: &mut G) -> R {
    let kind = g.below(8);
    let (r, gg, b) = (g.u8(), g.u8(), g.u8());
    let (src, want, alpha, tol): (String, (f64, f64, f64), f64, f64) = match kind {
        0 => {
            let (n, r, gg, b) = *g.of(CSS);
            (n.into(), (r as f64, gg as f64, b as f64), 1.0, 0.0)
        }
        1 => (format!("#{r:02x}{gg:02x}{b:02x}"), (r as f64, gg as f64, b as f64), 1.0, 0.0),
        2 => {
            let a = g.u8();
            (format!("#{r:02x}{gg:02x}{b:02x}{a:02x}"), (r as f64, gg as f64, b as f64), a as f64 / 255.0, 0.0)
        }
        3 => {
            let (x, y, z) = (r % 16, gg % 16, b % 16);
            (format!("#{x:x}{y:x}{z:x}"), (x as f64 * 17.0, y as f64 * 17.0, z as f64 * 17.0), 1.0, 0.0)
        }
        4 => {
            let (x, y, z, a) = (r % 16, gg % 16, b % 16, g.below(16));
            (format!("#{x:x}{y:x}{z:x}{a:x}"), (x as f64 * 17.0, y as f64 * 17.0, z as f64 * 17.0), a as f64 / 15.0, 0.0)
        }
        5 => {
            let (p, q, w) = (pad(g), pad(g), pad(g));
            (format!("rgb({p}{r},{q}{gg},{w}{b})"), (r as f64, gg as f64, b as f64), 1.0, 0.0)
        }
        6 => {
            let a = g.below(101) as f64 / 100.0;
            let f = g.pick(&["rgb", "rgba"]);
            let p = pad(g);
            (format!("{f}({r},{p}{gg},{b},{p}{a})"), (r as f64, gg as f64, b as f64), a, 0.0)
        }
        _ => {
            let h = g.below(360) as f64;
            let s = g.below(101) as f64;
            let l = g.below(101) as f64;
            let p = pad(g);
            if g.bool() {
                (format!("hsl({h},{p}{s}%,{p}{l}%)"), hsl_ref(h, s / 100.0, l / 100.0), 1.0, 1.0)
            } else {
                let a = g.below(101) as f64 / 100.0;
                (format!("hsla({h},{p}{s}%,{p}{l}%,{p}{a})"), hsl_ref(h, s / 100.0, l / 100.0), a, 1.0)
            }
        }
    };
    let src = rand_case(g, &src);
    let src = format!("{}{src}{}", pad(g), pad(g));
    g.key(&src);
    g.nontrivial_if(true);
    g.note(|| format!("colour {src:?} expected {want:?} alpha {alpha}"));
    let c = RgbaColor::parse(&src).map_err(|e| Fail(format!("rejected: {e}")))?;
    for (got, w) in [(c.r, want.0), (c.g, want.1), (c.b, want.2)] {
        ensure!((got as f64 - w).abs() <= tol * 0.5 + 0.01, "{src:?} parsed to {c:?}, expected {want:?}");
    }
    ensure!((c.a as f64 - alpha).abs() < 1e-4, "{src:?}: alpha {} expected {alpha}", c.a);
    ensure!(!c.auto && c.ansi.is_none() && c.theme_var.is_none(), "literal colour is not literal: {c:?}");
    // the same colour through a style sheet
    if !src.trim().is_empty() {
        let css = format!("Label {{ background: {}; }}", src.trim());
        let sheet = tcss::parser::parse_stylesheet(&css).map_err(|e| Fail(format!("stylesheet rejected {css:?}: {e:?}")))?;
        let n = sheet.rules.iter().map(|r| r.declarations().len()).sum::<usize>();
        ensure_eq!(n, 1, "declarations in {css:?}");
        let meta = tcss::WidgetMeta { type_name: "Label", type_names: vec!["Label"], ..Default::default() };
        let st = tcss::parser::cascade::compute_style(&meta, &[], &sheet, &tcss::types::Theme::new("t", true));
        let bg = st.background.clone();
        ensure!(bg.as_ref().is_some_and(|x| (x.r, x.g, x.b) == (c.r, c.g, c.b) && (x.a - c.a).abs() < 1e-4), "background from {css:?} is {bg:?}, expected {c:?}");
    }
    Ok(())
}

fn rc(g: &mut G, opaque: bool) -> RgbaColor {
    let ch = |g: &mut G| if g.chance(1, 4) { *g.of(&[0u8, 1, 127, 128, 254, 255]) } else { g.u8() };
    let (r, gg, b) = (ch(g), ch(g), ch(g));
    let a = if opaque { 1.0 } else { g.below(101) as f32 / 100.0 };
    RgbaColor::rgba(r, gg, b, a)
}

fn arithmetic(g: &mut G) -> R {
    let over = rc(g, false);
    let base = rc(g, true);
    g.note(|| format!("over {over:?} base {base:?}"));
    g.nontrivial_if(over.a > 0.0 && over.a < 1.0);
    let lerp = |a: u8, b: u8, f: f64| a as f64 + (b as f64 - a as f64) * f;
    // compositing over an opaque background
    let m = over.blend_over(&base);
    for (got, o, b) in [(m.r, over.r, base.r), (m.g, over.g, base.g), (m.b, over.b, base.b)] {
        ensure!(near(got, lerp(b, o, over.a as f64)), "compositing {over:?} over {base:?} gave {m:?}");
        ensure!(got >= o.min(b) && got <= o.max(b), "composited channel outside the two inputs: {m:?}");
    }
    ensure!(m.a >= 1.0, "compositing over an opaque background is opaque: {m:?}");
    // background tint keeps the base alpha
    let t = base.tint(&over);
    for (got, o, b) in [(t.r, over.r, base.r), (t.g, over.g, base.g), (t.b, over.b, base.b)] {
        ensure!(near(got, lerp(b, o, over.a as f64)), "tint {over:?} of {base:?} gave {t:?}");
    }
    ensure_eq!(t.a, base.a, "tint keeps the base's alpha");
    // linear blend
    let f = g.below(101) as f32 / 100.0;
    let bl = base.blend(&over, f, None);
    for (got, a, b) in [(bl.r, base.r, over.r), (bl.g, base.g, over.g), (bl.b, base.b, over.b)] {
        ensure!(near(got, lerp(a, b, f as f64)), "blend {base:?} -> {over:?} at {f} gave {bl:?}");
    }
    ensure!((bl.a as f64 - (base.a as f64 + (over.a as f64 - base.a as f64) * f as f64)).abs() < 1e-3, "blend alpha {bl:?}");
    if f == 0.0 {
        ensure_eq!(bl, base, "blend at 0");
    }
    if f == 1.0 {
        ensure_eq!(bl, over, "blend at 1");
    }
    let bt = over.blend_toward(&base, f as f64);
    for (got, a, b) in [(bt.r, base.r, over.r), (bt.g, base.g, over.g), (bt.b, base.b, over.b)] {
        ensure!(near(got, lerp(a, b, f as f64)), "opacity blend of {over:?} on {base:?} at {f} gave {bt:?}");
    }
    // inverse is an involution
    ensure_eq!(over.inverse().inverse(), over, "inverse twice");
    // opacity scales alpha
    let op = g.below(101) as f64 / 100.0;
    ensure!((over.with_opacity(op).a as f64 - over.a as f64 * op.min(1.0)).abs() < 1e-4, "opacity {op} of {over:?}");
    Ok(())
}

fn contrast_and_shade(g: &mut G) -> R {
    let c = rc(g, false);
    g.note(|| format!("colour {c:?}"));
    g.nontrivial_if(true);
    let lum = |c: &RgbaColor| 0.299 * c.r as f64 + 0.587 * c.g as f64 + 0.114 * c.b as f64;
    // automatic text colour is the one of black/white further away in perceived brightness
    for t in [c.contrast_text(1.0), c.get_contrasting_color(1.0)] {
        let (b, w) = (lum(&c), 255.0 - lum(&c));
        let is_white = (t.r, t.g, t.b) == (255, 255, 255);
        let is_black = (t.r, t.g, t.b) == (0, 0, 0);
        ensure!(is_white || is_black, "contrast colour {t:?}");
        if (b - w).abs() > 2.0 {
            ensure_eq!(is_white, w > b, "contrast colour for {c:?} is {t:?}");
        }
    }
    let a = g.below(101) as f32 / 100.0;
    ensure!((c.contrast_text(a).a - a).abs() < 1e-6, "contrast text alpha");
    // lighten / darken
    let d1 = g.below(60) as f32 / 100.0;
    let d2 = d1 + g.below(40) as f32 / 100.0;
    let (k1, k2) = (c.darken(d1), c.darken(d2));
    let (l1, l2) = (c.lighten(d1), c.lighten(d2));
    ensure!(k1.a == c.a && l1.a == c.a, "shading keeps alpha");
    let y = |c: &RgbaColor| c.luminance() as f64;
    // one 8-bit step of slack for gamut clipping and truncation
    let slack = 0.012;
    ensure!(y(&k1) <= y(&c) + slack && y(&k2) <= y(&k1) + slack, "darken is not monotone: {c:?} {d1}->{k1:?} {d2}->{k2:?}");
    ensure!(y(&l1) + slack >= y(&c) && y(&l2) + slack >= y(&l1), "lighten is not monotone: {c:?} {d1}->{l1:?} {d2}->{l2:?}");
    let z = c.darken(0.0);
    for (x, w) in [(z.r, c.r), (z.g, c.g), (z.b, c.b)] {
        ensure!((x as i32 - w as i32).abs() <= 1, "darken(0) changed {c:?} to {z:?}");
    }
    let blk = c.darken(1.0);
    let wht = RgbaColor::rgba(c.r, c.r, c.r, c.a).lighten(1.0);
    ensure!(y(&blk) <= 0.2, "darken by 100% of {c:?} gives {blk:?}");
    ensure!(wht.r >= 253 && wht.g >= 253 && wht.b >= 253, "lighten by 100% of a grey gives {wht:?}");
    // exact lightness: darkening a grey by d lowers CIE L* by 100 d
    let gr = RgbaColor::rgb(c.g, c.g, c.g);
    let lstar = |v: u8| {
        let s = v as f64 / 255.0;
        let lin = if s <= 0.04045 { s / 12.92 } else { ((s + 0.055) / 1.055).powf(2.4) };
        if lin > 0.008856 { 116.0 * lin.cbrt() - 16.0 } else { 903.3 * lin }
    };
    let gd = gr.darken(d1);
    let want = (lstar(gr.r) - 100.0 * d1 as f64).clamp(0.0, 100.0);
    ensure!((lstar(gd.g) - want).abs() < 1.3, "grey {} darkened by {d1}: L* {} expected {want}", gr.r, lstar(gd.g));
    // indirect colours are left alone
    for s in [RgbaColor::auto(0.5), RgbaColor::theme_variable("primary"), RgbaColor::ansi(3)] {
        ensure_eq!(s.darken(d1), s, "shading an indirect colour");
        ensure_eq!(s.lighten(d1), s, "shading an indirect colour");
    }
    Ok(())
}

fn hostile_input(g: &mut G) -> R {
    let s = hostile(g, &["#", "f", "0", "rgb", "rgba", "hsl", "hsla", "(", ")", ",", "1", "255", "256", "-1", "%", "50%", ".", "red", "auto", "transparent", " ", "é", "1e9", "NaN"], 12);
    g.key(&s);
    g.note(|| format!("colour {s:?}"));
    g.nontrivial_if(s.contains('(') || s.contains('#'));
    if let Ok(c) = RgbaColor::parse(&s) {
        g.label("accepted");
        ensure_eq!(RgbaColor::parse(&format!(" {s} ")).ok().map(|x| (x.r, x.g, x.b, x.auto)), Some((c.r, c.g, c.b, c.auto)), "surrounding blanks change the colour");
        ensure!(!s.trim().is_empty(), "empty colour accepted");
    }
    let _ = rich::Color::parse(&s);
    let _ = rich::Style::parse(&s);
    Ok(())
}

pub const P: Property = Property {
    id: "C02",
    rule: "Colours are generated from (r,g,b,a) values and written in every documented notation with random case and blanks; arithmetic is compared with f64 formulas (one 8-bit step of slack, since channels may round or truncate). Non-trivial: every written notation; a translucent overlay for arithmetic; hostile text with '(' or '#'. Distinct by source text / by the generated values.",
    assumptions: &["hue in 0..359 and percentages in 0..100", "shading slack of 0.012 relative luminance for gamut clipping"],
    parts: &[
        Part { name: "notation", quick: 600_000, thorough: 6_000_000, f: notation },
        Part { name: "arithmetic", quick: 2_000_000, thorough: 30_000_000, f: arithmetic },
        Part { name: "contrast", quick: 2_000_000, thorough: 30_000_000, f: contrast_and_shade },
        Part { name: "hostile", quick: 3_000_000, thorough: 40_000_000, f: hostile_input },
    ],
};
