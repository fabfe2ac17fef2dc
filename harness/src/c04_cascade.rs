//! C04 selector matching, C05 cascade order, C06 nesting.
use crate::engine::*;
use crate::sheet::*;
use crate::{ensure_eq, fail};
use tcss::parser::cascade::compute_style;
use tcss::parser::parse_stylesheet;
use tcss::types::ComputedStyle;

fn matching(g: &mut G) -> R {
    let th = theme(g);
    let w = meta(g);
    let anc = g.vec(0, 6, meta);
    let c = complex_for(g, &w, &anc);
    let want = c.matches(&w, &anc, &th);
    let text = format!("{} {{ line-pad: 7; }}", c.text(g));
    g.key(&(&text, format!("{w:?}{anc:?}")));
    g.nontrivial_if(c.parts.len() >= 2 && !anc.is_empty());
    g.label_if(want, "matches");
    g.label_if(c.parts.len() >= 3, "three or more parts");
    g.note(|| format!("{text}\nwidget {w:?}\nancestors (parent first) {anc:?}\ntheme {} dark={}", th.name, th.is_dark));
    let sheet = parse_stylesheet(&text).map_err(|e| Fail(format!("rejected: {e:?}")))?;
    let got = compute_style(&w, &anc, &sheet, &th).line_pad == 7;
    ensure_eq!(got, want, "does the selector match?");
    Ok(())
}

pub const P04: Property = Property {
    id: "C04",
    rule: "a selector with at least one combinator against a widget with at least one ancestor",
    assumptions: &["selectors use type, universal, id, class and the eight documented pseudo-classes with descendant and child combinators; sibling combinators and attribute selectors are not claimed"],
    parts: &[Part { name: "matching", quick: 2_000_000, thorough: 20_000_000, f: matching }],
};

fn cascade(g: &mut G) -> R {
    let th = theme(g);
    let w = meta(g);
    let anc = g.vec(0, 4, meta);
    let n = g.usize(1, 8);
    let mut text = String::new();
    let mut hits: Vec<((u32, u32, u32), usize, Vec<Decl>)> = vec![];
    // few properties per case so that rules really compete
    let pool = g.vec(1, 4, |g| decl(g, &th).prop);
    for i in 0..n {
        let sels = g.vec(1, 3, |g| complex_for(g, &w, &anc));
        let decls = g.vec(1, 3, |g| {
            for _ in 0..12 {
                let dl = decl(g, &th);
                if pool.iter().any(|p| p.split('-').next() == dl.prop.split('-').next()) {
                    return dl;
                }
            }
            decl(g, &th)
        });
        text.push_str(&format!("{} {{ {} }}\n", list_text(g, &sels, false), body_text(g, &decls, false)));
        if let Some(spec) = sels.iter().filter(|c| c.matches(&w, &anc, &th)).map(|c| c.spec()).max() {
            hits.push((spec, i, decls));
        }
    }
    g.key(&(&text, format!("{w:?}{anc:?}")));
    g.nontrivial_if(hits.len() >= 2);
    let mut specs: Vec<_> = hits.iter().map(|h| h.0).collect();
    specs.sort();
    specs.dedup();
    g.label_if(specs.len() >= 2, "different specificities");
    g.label_if(specs.len() < hits.len(), "equal specificities");
    g.note(|| format!("{text}widget {w:?}\nancestors {anc:?}"));
    hits.sort_by_key(|h| (h.0, h.1));
    let mut want = observe(&ComputedStyle::default());
    for (_, _, ds) in &hits {
        for dl in ds {
            apply(&mut want, dl);
        }
    }
    let sheet = parse_stylesheet(&text).map_err(|e| Fail(format!("rejected: {e:?}")))?;
    let got = observe(&compute_style(&w, &anc, &sheet, &th));
    if let Some(m) = diff(&got, &want) {
        fail!("{m}");
    }
    Ok(())
}

/// Rules with selectors that match nothing, rules moved between different specificities and rules about
/// other widgets change nothing.
fn irrelevance(g: &mut G) -> R {
    let th = theme(g);
    let w = meta(g);
    let anc = g.vec(0, 4, meta);
    let n = g.usize(2, 6);
    let rules: Vec<(Vec<Complex>, String)> = (0..n)
        .map(|_| {
            let sels = g.vec(1, 2, |g| complex_for(g, &w, &anc));
            let decls = g.vec(1, 3, |g| decl(g, &th));
            let t = format!("{} {{ {} }}\n", list_text(g, &sels, false), body_text(g, &decls, false));
            (sels, t)
        })
        .collect();
    let style = |texts: &[String]| -> Result<Obs, Fail> {
        let t = texts.concat();
        let sheet = parse_stylesheet(&t).map_err(|e| Fail(format!("rejected: {e:?}\n{t}")))?;
        Ok(observe(&compute_style(&w, &anc, &sheet, &th)))
    };
    let all: Vec<String> = rules.iter().map(|r| r.1.clone()).collect();
    g.note(|| format!("{}widget {w:?}\nancestors {anc:?}", all.concat()));
    g.key(&all);
    let base = style(&all)?;
    // keep only matching rules
    let spec_of = |r: &(Vec<Complex>, String)| r.0.iter().filter(|c| c.matches(&w, &anc, &th)).map(|c| c.spec()).max();
    let matching: Vec<String> = rules.iter().filter(|r| spec_of(r).is_some()).map(|r| r.1.clone()).collect();
    g.nontrivial_if(matching.len() >= 2);
    ensure_eq!(style(&matching)?, base, "dropping the rules that do not match changed the style");
    // stable sort by specificity leaves the outcome alone
    let mut sorted: Vec<_> = rules.iter().filter(|r| spec_of(r).is_some()).collect();
    sorted.sort_by_key(|r| spec_of(r));
    let sorted: Vec<String> = sorted.iter().map(|r| r.1.clone()).collect();
    ensure_eq!(style(&sorted)?, base, "moving a rule past rules of other specificity changed the style");
    Ok(())
}

pub const P05: Property = Property {
    id: "C05",
    rule: "at least two rules match the widget",
    assumptions: &["text-style, border-title-style and border-subtitle-style accumulate across rules (documented merge); every other longhand is replaced", "!important has no effect in this version and is not generated"],
    parts: &[Part { name: "cascade", quick: 360_000, thorough: 2_500_000, f: cascade }, Part { name: "irrelevance", quick: 180_000, thorough: 1_000_000, f: irrelevance }],
};

// ---- nesting ------------------------------------------------------------------------------------------

struct Nest {
    /// how each selector of the list attaches to the parent: None = plain descendant, Some = "&"
    sels: Vec<Child>,
    items: Vec<Item>,
}
enum Item {
    D(Decl),
    N(Nest),
}
#[derive(Clone)]
struct Child {
    amp: bool,
    /// simple selectors glued to "&" (only when amp)
    glued: Vec<Simple>,
    /// the parts that follow; `child[0]` joins the parent (amp) or is implied descendant
    rest: Option<Complex>,
    first_child: bool,
}

fn glue(g: &mut G, m: &tcss::WidgetMeta) -> Vec<Simple> {
    compound_for(g, m).0.into_iter().filter(|s| !matches!(s, Simple::Type(_) | Simple::Any)).collect()
}

fn gen_nest(g: &mut G, depth: usize, th: &tcss::types::Theme, w: &tcss::WidgetMeta, anc: &[tcss::WidgetMeta]) -> Nest {
    let sels = g.vec(1, 2, |g| {
        let amp = g.chance(2, 3);
        let near = if g.bool() { w.clone() } else { anc.first().unwrap_or(w).clone() };
        let glued = if amp { glue(g, &near) } else { vec![] };
        let need_rest = !amp;
        let rest = if need_rest || g.chance(1, 3) {
            let mut c = complex_for(g, w, &anc[..anc.len().min(1)]);
            c.parts.truncate(2);
            c.child.truncate(c.parts.len() - 1);
            Some(c)
        } else {
            None
        };
        Child { amp, glued, rest, first_child: g.bool() }
    });
    let mut items = vec![];
    for _ in 0..g.usize(1, 3) {
        if depth < 3 && g.chance(1, 3) {
            items.push(Item::N(gen_nest(g, depth + 1, th, w, anc)));
        } else {
            items.push(Item::D(decl(g, th)));
        }
    }
    Nest { sels, items }
}

fn combine(parent: &[Complex], kids: &[Child]) -> Vec<Complex> {
    let mut out = vec![];
    for p in parent {
        for k in kids {
            let mut c = p.clone();
            if k.amp {
                c.parts.last_mut().unwrap().0.extend(k.glued.iter().cloned());
            }
            if let Some(r) = &k.rest {
                c.child.push(k.amp && k.first_child);
                c.parts.extend(r.parts.iter().cloned());
                c.child.extend(r.child.iter().copied());
            }
            out.push(c);
        }
    }
    out
}

fn nest_text(g: &mut G, sel: &str, items: &[Item]) -> String {
    let mut s = format!("{sel}{}{{", ws(g, false, true));
    for it in items {
        s.push_str(&ws(g, false, true));
        match it {
            Item::D(dl) => s.push_str(&format!("{};", decl_text(g, dl, true))),
            Item::N(n) => {
                let mut l = vec![];
                for k in &n.sels {
                    let mut t = String::new();
                    if k.amp {
                        t.push('&');
                        t.extend(k.glued.iter().map(|s| s.text()));
                    }
                    if let Some(r) = &k.rest {
                        if k.amp {
                            t.push_str(if k.first_child { g.pick(&[" > ", ">"]) } else { " " });
                        }
                        t.push_str(&r.text(g));
                    }
                    l.push(t);
                }
                let sel = l.join(&format!("{},{}", ws(g, false, true), ws(g, false, true)));
                s.push_str(&nest_text(g, &sel, &n.items));
            }
        }
    }
    s.push_str(&ws(g, false, true));
    s.push('}');
    s
}

/// The flat rules a nested rule stands for: its own declarations, then each nested rule in turn.
fn flatten<'a>(sels: Vec<Complex>, items: &'a [Item], out: &mut Vec<(Vec<Complex>, Vec<&'a Decl>)>) {
    out.push((sels.clone(), items.iter().filter_map(|i| if let Item::D(d) = i { Some(d) } else { None }).collect()));
    for it in items {
        if let Item::N(n) = it {
            flatten(combine(&sels, &n.sels), &n.items, out);
        }
    }
}

fn nesting(g: &mut G) -> R {
    let th = theme(g);
    let w = meta(g);
    let anc = g.vec(0, 4, meta);
    let mut text = String::new();
    let mut flat = vec![];
    let tops: Vec<(Vec<Complex>, Vec<Item>)> = (0..g.usize(1, 3))
        .map(|_| {
            let near = if anc.is_empty() || g.bool() { (w.clone(), anc.clone()) } else { (anc[0].clone(), anc[1..].to_vec()) };
            let sels = g.vec(1, 2, |g| complex_for(g, &near.0, &near.1));
            let mut items = vec![];
            for _ in 0..g.usize(1, 3) {
                if g.chance(2, 3) {
                    items.push(Item::N(gen_nest(g, 1, &th, &w, &anc)));
                } else {
                    items.push(Item::D(decl(g, &th)));
                }
            }
            (sels, items)
        })
        .collect();
    for (sels, items) in &tops {
        let sel = list_text(g, sels, true);
        text.push_str(&nest_text(g, &sel, items));
        text.push('\n');
        flatten(sels.clone(), items, &mut flat);
    }
    g.key(&(&text, format!("{w:?}{anc:?}")));
    g.note(|| format!("{text}\nwidget {w:?}\nancestors {anc:?}"));
    // reference: flat cascade
    let mut hits: Vec<_> = flat.iter().enumerate().filter_map(|(i, (s, d))| s.iter().filter(|c| c.matches(&w, &anc, &th)).map(|c| c.spec()).max().map(|sp| (sp, i, d))).collect();
    let nested_hit = hits.iter().any(|h| !tops.is_empty() && !h.2.is_empty() && flat[h.1].0[0].parts.len() + flat[h.1].0.len() > 2);
    g.nontrivial_if(nested_hit && flat.len() > tops.len());
    g.label_if(hits.iter().filter(|h| !h.2.is_empty()).count() >= 2, "several flattened rules match");
    hits.sort_by_key(|h| (h.0, h.1));
    let mut want = observe(&ComputedStyle::default());
    for (_, _, ds) in &hits {
        for dl in ds.iter() {
            apply(&mut want, dl);
        }
    }
    let sheet = parse_stylesheet(&text).map_err(|e| Fail(format!("rejected: {e:?}")))?;
    let got = observe(&compute_style(&w, &anc, &sheet, &th));
    if let Some(m) = diff(&got, &want) {
        fail!("{m}");
    }
    // and the hand-flattened text computes the same
    let mut hand = String::new();
    for (s, ds) in &flat {
        if !ds.is_empty() {
            let b: Vec<String> = ds.iter().map(|dl| format!("{}: {}", dl.prop, dl.tokens.join(" "))).collect();
            let l: Vec<String> = s.iter().map(|c| c.text(g)).collect();
            hand.push_str(&format!("{} {{ {}; }}\n", l.join(", "), b.join("; ")));
        }
    }
    let sheet2 = parse_stylesheet(&hand).map_err(|e| Fail(format!("hand-flattened sheet rejected: {e:?}\n{hand}")))?;
    let got2 = observe(&compute_style(&w, &anc, &sheet2, &th));
    if let Some(m) = diff(&got2, &got) {
        fail!("nested and hand-flattened sheets differ: {m}\n{hand}");
    }
    Ok(())
}

pub const P06: Property = Property {
    id: "C06",
    rule: "the sheet has a nested rule, and a flattened rule with declarations matches the widget",
    assumptions: &["'&' stands first in a nested selector (glued qualifiers, child or descendant continuation) or is absent; '&' elsewhere is not claimed", "a rule's own declarations come before its nested rules, as the flattening documentation shows"],
    parts: &[Part { name: "nesting", quick: 240_000, thorough: 1_500_000, f: nesting }],
};
