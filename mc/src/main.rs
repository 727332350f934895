mod alloc;
mod arch;
mod checks_builder;
mod checks_fs;
mod checks_http;
mod checks_mem;
mod checks_reader;
mod ctl;
mod env;
mod rm;
mod zipck;

use ctl::{Ctx, Fail, Mode, Tier};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const GRAPH: &str = "\"graph\" sections: breadth-first over all states of the real reader that the listed operations and source answers lead to, a state being the complete dump of the reader (hook), the sources and the position; a transition is one operation executed by the code in /repo and judged; complete when no new state appears. ";
const TREE: &str = "\"tree\" sections: depth-first over every combination of the listed choices, each run from the beginning on the code in /repo; a state is a node of the tree of choices, a transition an edge to one, a trace a complete run from the beginning to its end. ";

/// How the states and transitions in the evidence of a property are counted.
pub fn counting_rule(p: &str) -> String {
    let (sections, what): (&[&str], &str) = match p {
        "C01" => (
            &[TREE],
            "Choices: entries, contents, names, CRC knowledge, read sizes. Judged by an independent ZIP parser, and by the zip crate.",
        ),
        "C02" => (
            &[TREE],
            "Choices: sequences of builder calls; size() is compared with the bytes read after every one.",
        ),
        "C03" => (
            &[GRAPH, TREE],
            "Operations: reads of every listed size; the bytes are compared with the archive read in one go and parsed independently.",
        ),
        "C04" => (
            &[GRAPH, TREE],
            "Operations: reads and seeks of every kind to every offset.",
        ),
        "C05" => (&[GRAPH, TREE], "Source answers: ready, pending, one byte."),
        "C06" => (
            &[GRAPH, TREE],
            "Source answers: ready, pending, error, for opening, reading, starting and completing a seek.",
        ),
        "C07" => (
            &[TREE],
            "Choices: which entries have a wrong size or CRC and by how much, read sizes, behaviour after the error.",
        ),
        "C08" => (
            &[GRAPH, TREE],
            "Every state is also the starting point of a clone and a taken reader.",
        ),
        "C09" => (&[GRAPH, TREE], "Every access of an entry source is judged."),
        "C10" => (
            &[GRAPH, TREE],
            "Every state is the moment of cloning and taking; two readers are interleaved in every order.",
        ),
        "C11" => (
            &[TREE],
            "Choices: names of every length class and encoding, numbers of entries, sizes near the limits.",
        ),
        "C12" => (
            &[TREE],
            "Choices: sequences of setters of type, permissions and metadata.",
        ),
        "C13" => (
            &[TREE],
            "Choices: the objects of a directory tree made on disk, their names, the root name, the form of the path.",
        ),
        "C14" => (
            &[TREE],
            "Choices: the header (every range, every string of the listed tokens), the state of the reader before, source answers while the body is polled.",
        ),
        "C15" => (
            &[GRAPH],
            "Operations: polling, seeking, reading, cloning, taking, unwrapping; source answers ready, pending, one byte, error.",
        ),
        "C16" => (
            &[TREE],
            "Choices: sizes, offsets and counts around 2^16, 2^31, 2^32, 2^63 and 2^64.",
        ),
        "C17" => (
            &[TREE],
            "Choices: which object is changed, how, and after which read.",
        ),
        "C18" => (
            &[TREE],
            "Choices: state before, request, source answers, and the poll after which the response is dropped.",
        ),
        "C19" => (
            &[TREE],
            "Choices: sizes, offsets, read sizes, ways of reading, cycles of operations; the peak and the growth of the heap are measured.",
        ),
        "C20" => (
            &[TREE],
            "Choices: sequences of setters, times, converters; judged by independent calendar arithmetic.",
        ),
        _ => (&[], ""),
    };
    format!("{}{what}", sections.concat())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let (id, tier, mode) = if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file"))
                .expect("replay file");
        let tier = if v["tier"] == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        };
        let choices = v["choices"]
            .as_array()
            .expect("choices")
            .iter()
            .map(|x| x.as_u64().unwrap() as u16)
            .collect();
        (
            v["property"].as_str().unwrap().to_string(),
            tier,
            Mode::Replay {
                section: v["section"].as_str().unwrap().to_string(),
                choices,
            },
        )
    } else {
        let tier = match args.get(2).map(String::as_str) {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        (args.get(1).cloned().unwrap_or_default(), tier, Mode::Run)
    };
    ctl::install_panic_hook();
    let _ = alloc::OOM_LINE.set(format!(
        "memory exceeded 16 GiB\nVIOLATION property={id} replay={verif}/replays/{id}-memory.json\n"
    ));
    let ctx = Ctx::new(&id, tier, mode, verif.into());
    let c = ctx.clone();
    let run = move || match id.as_str() {
        "C01" => checks_builder::c01(&c),
        "C02" => checks_builder::c02(&c),
        "C07" => checks_builder::c07(&c),
        "C11" => checks_builder::c11(&c),
        "C12" => checks_builder::c12(&c),
        "C16" => checks_builder::c16(&c),
        "C20" => checks_builder::c20(&c),
        "C14" => checks_http::c14(&c),
        "C15" => checks_http::c15(&c),
        "C18" => checks_http::c18(&c),
        "C19" => checks_mem::c19(&c),
        "C13" => checks_fs::c13(&c),
        "C17" => checks_fs::c17(&c),
        "C03" => checks_reader::c03(&c),
        "C04" => checks_reader::c04(&c),
        "C05" => checks_reader::c05(&c),
        "C06" => checks_reader::c06(&c),
        "C08" => checks_reader::c08(&c),
        "C09" => checks_reader::c09(&c),
        "C10" => checks_reader::c10(&c),
        x => {
            println!("unknown property {x}");
            std::process::exit(2);
        }
    };
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(run)
        .unwrap();
    if let Err(p) = t.join() {
        // Preparing the inputs of a check uses the code under test as well
        let f = if let Some(f) = p.downcast_ref::<Fail>() {
            f.clone()
        } else {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Fail {
                sig: "panic".into(),
                msg: format!("panic while preparing a check: {m}"),
            }
        };
        ctx.violation("setup", &[], &f, "");
    }
    std::process::exit(ctx.finish());
}
