//! All checks.
use crate::check::Check;
use crate::checks::Trees;
pub fn all() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(crate::lexcheck::Lexing), Box::new(crate::lexcheck::Histories), Box::new(crate::trav::Traversal), Box::new(crate::relate::Trivia), Box::new(crate::relate::Entries), Box::new(crate::diag::Diagnostics), Box::new(crate::early::Early), Box::new(crate::total::Total), Box::new(crate::effort::Effort), Box::new(crate::cli::Cli), Box::new(crate::written::Written),
        Box::new(crate::codegen::Codegen { id: "C15", which: "pretty" }), Box::new(crate::codegen::Codegen { id: "C16", which: "minified" }),
        Box::new(Trees { id: "C04", profiles: &[("expr", 6), ("mixed", 1)], mutp: 30, charp: 10, spans: false, n: (90_000, 4_000_000), small: 50, table: 35, seeds: Default::default(), floor: &[("accepted by both", 4000), ("rejected by both", 1000)],
            rule: "Random expression-heavy programs (every operator, literal, member, call, new, template and optional-chain form), 30% of them with tokens mutated, and sources from a table (each of 230 positions of an expression filled with each of 480 expressions and near-expressions: all of them, and at random nested further), read by the project and by the reference; non-trivial: accepted by both with more than 6 nodes and a tree shape not seen before, or rejected by both." }),
        Box::new(Trees { id: "C05", profiles: &[("cover", 1)], mutp: 35, charp: 5, spans: false, n: (90_000, 4_000_000), small: 50, table: 35, seeds: Default::default(), floor: &[("accepted by both", 4000), ("rejected by both", 1000)],
            rule: "Random programs made of arrow functions, parenthesised forms, object and array literals, destructuring assignments, declarations and for-heads, 35% mutated, so that the same prefix turns out to be a pattern, a parameter list or an expression; non-trivial: accepted by both with more than 6 nodes and an unseen tree shape, or rejected by both." }),
        Box::new(Trees { id: "C06", profiles: &[("stmt", 6), ("mixed", 1)], mutp: 30, charp: 5, spans: false, n: (90_000, 4_000_000), small: 40, table: 35, seeds: Default::default(), floor: &[("accepted by both", 4000), ("rejected by both", 1000)],
            rule: "Random statement-heavy programs with line breaks placed at random and nearly half of the semicolons left out where a line break or brace allows it, 30% mutated; non-trivial: accepted by both with more than 6 nodes and an unseen tree shape, or rejected by both." }),
        Box::new(Trees { id: "C07", profiles: &[("func", 6), ("mixed", 1)], mutp: 30, charp: 5, spans: false, n: (90_000, 4_000_000), small: 40, table: 35, seeds: Default::default(), floor: &[("accepted by both", 4000), ("rejected by both", 1000)],
            rule: "Random programs of nested functions, generators, async functions, arrows, classes, methods, accessors and super/new.target uses, 30% mutated; non-trivial: accepted by both with more than 6 nodes and an unseen tree shape, or rejected by both." }),
        Box::new(Trees { id: "C08", profiles: &[("module", 1)], mutp: 30, charp: 5, spans: false, n: (90_000, 4_000_000), small: 40, table: 35, seeds: Default::default(), floor: &[("accepted by both", 4000), ("rejected by both", 1000)],
            rule: "Random modules of import and export declarations between other statements, 30% mutated; non-trivial: accepted by both with more than 6 nodes and an unseen tree shape, or rejected by both." }),
        Box::new(Trees { id: "C09", profiles: &[("mixed", 4), ("expr", 1), ("cover", 1), ("stmt", 1), ("func", 1), ("module", 1)], mutp: 0, charp: 0, spans: true, n: (90_000, 4_000_000), small: 25, table: 35, seeds: Default::default(), floor: &[("accepted by both", 7000)],
            rule: "Random programs of all profiles with comments, odd white space and non-ASCII characters between and inside tokens; every node's start and end is compared with the reference's; non-trivial: more than 6 nodes and an unseen tree shape." }),
        Box::new(Trees { id: "C11", profiles: &[("mixed", 3), ("expr", 1), ("cover", 1), ("stmt", 1), ("func", 1), ("module", 1), ("strict", 1)], mutp: 100, charp: 40, spans: false, n: (130_000, 6_000_000), small: 65, table: 55, seeds: Default::default(), floor: &[("rejected by both", 5000)],
            rule: "Programs of all profiles with one to three token edits (delete, insert, replace, swap, duplicate, splice from another program, line break) and, for 40%, character edits; non-trivial: both reject, with distinct source and message, or both accept with an unseen tree shape." }),
    ]
}
pub fn ids() -> Vec<&'static str> { all().iter().map(|c| c.id()).collect() }
pub fn get(id: &str) -> Box<dyn Check> { all().into_iter().find(|c| c.id() == id).unwrap_or_else(|| { eprintln!("no check {id}"); std::process::exit(2) }) }
