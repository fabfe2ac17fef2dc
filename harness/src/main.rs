mod c01_markup;
mod c02_color;
mod c03_parse;
mod c04_cascade;
mod c07_vars;
mod c08_restyle;
mod c09_text;
mod c11_canvas;
mod c13_layout;
mod c16_scroll;
mod c17_tree;
mod c20_widgets;
mod c22_palette;
mod c23_box;
mod c24_export;
mod c25_keylines;
mod c26_mouse;
mod c27_loop;
mod c28_timers;
mod c29_display;
mod c30_natural;
mod c31_links;
mod c32_macros;
mod c33_told;
mod common;
mod csscolors;
mod engine;
mod sheet;
mod trees;

use engine::Property;

const ALL: &[&Property] = &[&c01_markup::P, &c02_color::P, &c03_parse::P, &c04_cascade::P04, &c04_cascade::P05, &c04_cascade::P06, &c07_vars::P, &c08_restyle::P08, &c09_text::P09, &c09_text::P10, &c11_canvas::P11, &c11_canvas::P12, &c13_layout::P13, &c13_layout::P14, &c13_layout::P15, &c16_scroll::P16, &c17_tree::P17, &c17_tree::P18, &c17_tree::P19, &c20_widgets::P20, &c20_widgets::P21, &c22_palette::P22, &c23_box::P23, &c24_export::P24, &c25_keylines::P25, &c26_mouse::P26, &c27_loop::P27, &c28_timers::P28, &c29_display::P29, &c30_natural::P30, &c31_links::P31, &c32_macros::P32, &c33_told::P33];

fn main() {
    // Shrinking and replaying run the same deep cases as the workers do.
    std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join().unwrap();
}

fn body() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Property {
        ALL.iter().find(|p| p.id == id).copied().unwrap_or_else(|| {
            println!("ERROR: unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            if std::env::var_os("VP_PROGRESS").is_none() {
                std::process::exit(engine::supervise(find(&a[2]), &a[1..], seed, &a[4]));
            }
            let only = std::env::var("VP_PART").ok();
            engine::run_property(find(&a[2]), &a[3], seed, &a[4], only.as_deref())
        }
        Some("replay") => engine::replay(find(&a[2]), &a[3]),
        Some("list") => {
            for p in ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: vp run ID TIER OUTDIR | replay ID FILE | list");
            2
        }
    };
    std::process::exit(code);
}
