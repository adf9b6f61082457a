// Batch driver around the public API of svgcleaner.
//
// Protocol (stdin/stdout, binary safe):
//   request:  "<id> <mode> <nargs> <nbytes>\n" then nargs lines, then nbytes of SVG
//   response: "<id> <status> <nbytes>\n" then nbytes of payload
// mode "clean": parse -> clean -> write; status ok|parse|clean|args|panic
// mode "opts":  resolved options as key=value lines; status ok|args|check
// mode "rewrite": parse -> write (no cleaning)
use std::io::{self, BufRead, Read, Write};
use std::panic;

use svgcleaner::{cleaner, ChainedErrorExt};

mod svgcleaner_args {
    use svgcleaner::cli;
    pub struct Opts {
        pub ok: bool,
        pub parse: svgcleaner::ParseOptions,
        pub write: svgcleaner::WriteOptions,
        pub clean: svgcleaner::CleaningOptions,
        pub io: String,
    }
    pub fn parse(args: &[String]) -> Result<Opts, String> {
        let mut v = vec!["svgcleaner".to_string()];
        v.extend(args.iter().cloned());
        let app = cli::prepare_app();
        let m = match app.get_matches_from_safe(v) {
            Ok(m) => m,
            Err(e) => return Err(e.message),
        };
        let ok = cli::check_values(&m);
        let io = format!("{:?} -> {:?}", cli::input(&m), cli::output(&m));
        let o = Opts {
            ok,
            parse: cli::gen_parse_options(&m),
            write: cli::gen_write_options(&m),
            clean: cli::gen_cleaning_options(&m),
            io,
        };
        Ok(o)
    }
}

fn opts_dump(o: &svgcleaner_args::Opts) -> String {
    let mut s = String::new();
    macro_rules! p { ($st:expr, $($f:ident),*) => { $( s.push_str(&format!("{}={:?}\n", stringify!($f), $st.$f)); )* } }
    p!(o.parse, parse_comments, parse_declarations, parse_unknown_elements, parse_unknown_attributes,
       parse_px_unit, skip_unresolved_classes, skip_invalid_attributes, skip_invalid_css, skip_paint_fallback);
    p!(o.write, use_single_quote, trim_hex_colors, write_hidden_attributes, remove_leading_zero,
       use_compact_path_notation, join_arc_to_flags, remove_duplicated_path_commands,
       use_implicit_lineto_commands, simplify_transform_matrices);
    use svgcleaner::StyleJoinMode as S;
    let c = &o.clean;
    p!(c, remove_unused_defs, convert_shapes, remove_title, remove_desc, remove_metadata,
       remove_dupl_linear_gradients, remove_dupl_radial_gradients, remove_dupl_fe_gaussian_blur,
       ungroup_groups, ungroup_defs, group_by_style, merge_gradients, regroup_gradient_stops,
       remove_invalid_stops, remove_invisible_elements, resolve_use,
       remove_version, remove_unreferenced_ids, trim_ids, remove_text_attributes,
       remove_unused_coordinates, remove_default_attributes, remove_xmlns_xlink_attribute,
       remove_needless_attributes, remove_gradient_attributes,
       apply_transform_to_gradients, apply_transform_to_shapes,
       paths_to_relative, remove_unused_segments, convert_segments, apply_transform_to_paths,
       append_newline,
       coordinates_precision, properties_precision, paths_coordinates_precision, transforms_precision);
    s.push_str(match c.join_style_attributes {
        S::None => "join_style_attributes=no\n",
        S::Some => "join_style_attributes=some\n",
        S::All => "join_style_attributes=all\n",
    });
    use svgdom::{Indent, ListSeparator};
    s.push_str(&match o.write.indent {
        Indent::None => "indent=none\n".to_string(),
        Indent::Spaces(n) => format!("indent={}\n", n),
        Indent::Tabs => "indent=tabs\n".to_string(),
    });
    s.push_str(match o.write.list_separator {
        ListSeparator::Space => "list_separator=space\n",
        ListSeparator::Comma => "list_separator=comma\n",
        ListSeparator::CommaSpace => "list_separator=comma-space\n",
    });
    s.push_str(&format!("io={}\n", o.io));
    s
}

fn run(mode: &str, args: &[String], svg: &str) -> (&'static str, Vec<u8>) {
    let o = match svgcleaner_args::parse(args) {
        Ok(o) => o,
        Err(m) => return ("args", m.into_bytes()),
    };
    if mode == "opts" {
        return (if o.ok { "ok" } else { "check" }, opts_dump(&o).into_bytes());
    }
    let mut doc = match cleaner::parse_data(svg, &o.parse) {
        Ok(d) => d,
        Err(e) => return ("parse", e.full_chain().into_bytes()),
    };
    if mode == "clean" {
        if let Err(e) = cleaner::clean_doc(&mut doc, &o.clean, &o.write) {
            return ("clean", e.full_chain().into_bytes());
        }
    }
    let mut buf = Vec::new();
    cleaner::write_buffer(&doc, &o.write, &mut buf);
    if o.clean.append_newline && mode == "clean" {
        buf.push(b'\n');
    }
    ("ok", buf)
}

thread_local!(static PLACE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn main() {
    panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()));
        PLACE.with(|p| *p.borrow_mut() = l.unwrap_or_default());
    }));
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(serve).unwrap();
    child.join().unwrap();
}

fn serve() {
    let stdin = io::stdin();
    let mut inp = stdin.lock();
    let stdout = io::stdout();
    let mut out = stdout.lock();
    loop {
        let mut line = String::new();
        if inp.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let f: Vec<&str> = line.trim().split(' ').collect();
        let (id, mode) = (f[0].to_string(), f[1].to_string());
        let nargs: usize = f[2].parse().unwrap();
        let nb: usize = f[3].parse().unwrap();
        let mut args = Vec::new();
        for _ in 0..nargs {
            let mut l = String::new();
            inp.read_line(&mut l).unwrap();
            args.push(l.trim_end_matches('\n').to_string());
        }
        let mut buf = vec![0u8; nb];
        inp.read_exact(&mut buf).unwrap();
        let svg = String::from_utf8(buf).unwrap();
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| run(&mode, &args, &svg)));
        let (st, payload) = match r {
            Ok(x) => x,
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                        else { "?".to_string() };
                ("panic", (m + &PLACE.with(|p| p.borrow().clone())).into_bytes())
            }
        };
        writeln!(out, "{} {} {}", id, st, payload.len()).unwrap();
        out.write_all(&payload).unwrap();
        out.flush().unwrap();
    }
}
