mod blocks;
mod doc;
mod engine;
mod html;
mod xml;
mod soup;
mod sut;
mod props;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let props = props::all();
    let code = match a.as_slice() {
        ["run", id] => match props.iter().find(|p| p.id == *id) {
            Some(p) => engine::run(p),
            None => engine::die("unknown property"),
        },
        ["exec", id, part] => {
            let p = props.iter().find(|p| p.id == *id).unwrap_or_else(|| engine::die("unknown property"));
            engine::exec_loop(&p.parts[part.parse::<usize>().unwrap_or(0)]);
            0
        }
        ["replay", path] => engine::replay(&props, path),
        _ => engine::die("usage: vh run ID | replay FILE"),
    };
    std::process::exit(code)
}
