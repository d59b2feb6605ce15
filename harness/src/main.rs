//! Checks of properties C01 to C22: `vp check <id>`, `vp replay <file>`, `vp run <id> <cases>`.
mod dict;
mod engine;
mod json;
mod model;
mod procs;
mod props_cli;
mod props_front;
mod props_wire;
mod refparse;
mod validate;
mod value;

use engine::*;
use json::{n, obj, s, J};
use std::time::Instant;

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: props_wire::c01,
        search: Search::Probed(props_wire::begin),
        quick: 40000,
        thorough: 600000,
        rule: "Random valid schemas (0 to 14 auxiliary types nested up to 14 deep, adversarial names, any order) with 2 to 5 random values each, written, read and written again by the generated code. Non-trivial: the used types have at least two fields. Distinct by schema text and values.",
        assumptions: &["The runtime library is a stand-in written to the interface the generated code uses.", "Strings are of characters that fit one byte."],
    },
    Prop {
        id: "C02",
        run: props_wire::c02,
        search: Search::Probed(props_wire::begin),
        quick: 40000,
        thorough: 600000,
        rule: "Random valid schemas with 2 to 5 random values each; bytes written and values read compared with an independent encoder and decoder. Non-trivial: the used types have at least two fields. Distinct by schema text and values.",
        assumptions: &["The runtime library is a stand-in written to the interface the generated code uses.", "Strings are of characters that fit one byte."],
    },
    Prop {
        id: "C03",
        run: props_wire::c03,
        search: Search::Probed(props_wire::begin),
        quick: 14000,
        thorough: 200000,
        rule: "Random valid schemas and a random rewriting of each that keeps the exported type's structure; the same values written by both modules and read by the other. Non-trivial: the used types have at least two fields. Distinct by both texts and values.",
        assumptions: &["The runtime library is a stand-in written to the interface the generated code uses."],
    },
    Prop {
        id: "C04",
        run: props_wire::c04,
        search: Search::Probed(props_wire::begin),
        quick: 24000,
        thorough: 300000,
        rule: "Random valid schemas, one value each; all or many truncations of its packet, extensions, up to 30 corruptions and random bytes, each judged by an independent decoder. Non-trivial: the used types have at least two fields. Distinct by schema, packet and value.",
        assumptions: &["The runtime library is a stand-in with a sticky failure flag.", "Counts of elements that take no bytes at all are not judged."],
    },
    Prop {
        id: "C05",
        run: props_wire::c05,
        search: Search::Probed(props_wire::begin),
        quick: 12000,
        thorough: 180000,
        rule: "Random valid schemas with names legal in TypeScript; the module is checked by the TypeScript compiler, strict. Non-trivial: the used types have at least two fields. Distinct by schema text.",
        assumptions: &["TypeScript 5.9 stands for the TypeScript compiler.", "Names the generated class needs for itself are left out (listed in DESIGN.md)."],
    },
    Prop {
        id: "C06",
        run: props_wire::c06,
        search: Search::Probed(props_wire::begin),
        quick: 12000,
        thorough: 180000,
        rule: "Random valid schemas; classes, constructors, members, interfaces and enums as the TypeScript compiler resolves them, compared with the schema. Non-trivial: the used types have at least two fields. Distinct by schema text.",
        assumptions: &["TypeScript 5.9 stands for the TypeScript compiler."],
    },
    Prop {
        id: "C07",
        run: props_wire::c07,
        search: Search::Guided,
        quick: 16000,
        thorough: 200000,
        rule: "One to three enums of 1 to 32 variants (boundary sizes favoured) in plain, optional, array and nested positions; every variant written and read, values out of range refused, declared constants compared. Every case is non-trivial. Distinct by schema text.",
        assumptions: &["The runtime library is a stand-in written to the interface the generated code uses."],
    },
    Prop {
        id: "C08",
        run: props_front::c08,
        search: Search::Guided,
        quick: 400000,
        thorough: 8000000,
        rule: "Random schemas and reference graphs with 0 to 3 edits that usually break a rule, compiled 3 to 6 times each and compared with a reference validator. Non-trivial: at least two declarations. Distinct by text.",
        assumptions: &["Valid schemas that expand to more than 1500 fields are left out."],
    },
    Prop {
        id: "C09",
        run: props_front::c09,
        search: Search::Guided,
        quick: 500000,
        thorough: 10000000,
        rule: "Random schemas and reference graphs with 1 to 3 faults, compiled 6 times each; every message compared with the list of all faults. Non-trivial: at least two declarations. Distinct by text.",
        assumptions: &["A message in a wording not known to the check is not judged."],
    },
    Prop {
        id: "C10",
        run: props_front::c10,
        search: Search::Guided,
        quick: 1000000,
        thorough: 20000000,
        rule: "Random syntactically correct schemas in random layouts; the tree compared with the model. Non-trivial: at least one item. Distinct by text.",
        assumptions: &[],
    },
    Prop {
        id: "C11",
        run: props_front::c11,
        search: Search::Guided,
        quick: 1000000,
        thorough: 20000000,
        rule: "Schema texts after 1 to 4 random edits, and random token sequences, judged by a reference parser that accepts, refuses or makes no claim. Non-trivial: the reference makes a claim about a text that is not empty. Distinct by text.",
        assumptions: &["Texts the documented syntax leaves open are not judged (listed in DESIGN.md)."],
    },
    Prop {
        id: "C12",
        run: props_front::c12,
        search: Search::Guided,
        quick: 1000000,
        thorough: 20000000,
        rule: "Random schema texts with one illegal character between two tokens, or cut after a token inside a declaration; position, character, source line and marker compared. Non-trivial: the position is not the very start. Distinct by text.",
        assumptions: &[],
    },
    Prop {
        id: "C13",
        run: props_front::c13,
        search: Search::Guided,
        quick: 400000,
        thorough: 6000000,
        rule: "Hostile texts of eleven kinds (faulty and edited schemas, random tokens and characters, long chains, shared types, long names, many declarations). Non-trivial: more than three bytes. Distinct by text.",
        assumptions: &["Used types that expand to more than 1500 fields are left out: the size of the output grows with the expansion.", "Reference chains are at most 1000 long, 300 where the export uses them; a much longer one is a recorded defect."],
    },
    Prop {
        id: "C14",
        run: props_cli::c14,
        search: Search::Random,
        quick: 12000,
        thorough: 200000,
        rule: "Random directory trees with schemas, other files, links, old outputs; files before and after running the program compared. Non-trivial: at least one schema. Distinct by arguments and files.",
        assumptions: &["Names are valid UTF-8; an output never has the name of an existing directory."],
    },
    Prop {
        id: "C15",
        run: props_cli::c15,
        search: Search::Random,
        quick: 16000,
        thorough: 300000,
        rule: "Random directory trees and single files with something wrong in the schemas or the arguments; status, error output and files compared. Every case is non-trivial. Distinct by arguments and files.",
        assumptions: &[],
    },
    Prop {
        id: "C16",
        run: props_cli::c16,
        search: Search::Random,
        quick: 16000,
        thorough: 300000,
        rule: "Random schema files under random names, places and output directories; files before and after compared. Every case is non-trivial. Distinct by arguments and files.",
        assumptions: &["The input does not itself have the output's name."],
    },
    Prop {
        id: "C17",
        run: props_wire::c17,
        search: Search::Probed(props_wire::begin),
        quick: 30000,
        thorough: 400000,
        rule: "Random valid schemas and two values each; a fixed history of constructing, writing, reading and changing packets with every intermediate result compared. Non-trivial: the used types have at least two fields. Distinct by schema and values.",
        assumptions: &["The runtime library is a stand-in; buffers handed to write are large enough."],
    },
    Prop {
        id: "C18",
        run: props_front::c18,
        search: Search::Guided,
        quick: 200000,
        thorough: 4000000,
        rule: "Random valid schemas, each compiled as it is, rewritten in layout, order and unused declarations, again after a schema with the same names and other contents, and sometimes in a fresh process; the code compared. Non-trivial: the exported struct uses another type. Distinct by all texts.",
        assumptions: &["The first line, which says when the code was made, and the order of the type declarations are not compared."],
    },
    Prop {
        id: "C19",
        run: props_cli::c19,
        search: Search::Random,
        quick: 12000,
        thorough: 200000,
        rule: "Random directory trees and single files of valid schemas whose output cannot be written: a file in place of a directory, a directory in place of a file, no permission, or no room for the bytes; status, error output and files compared. Every case is non-trivial. Distinct by arguments and files.",
        assumptions: &["No room is simulated by a limit on the size of files.", "For missing permissions the program is run as user 65534; where that cannot be done these cases are discarded."],
    },
    Prop {
        id: "C20",
        run: props_cli::c20,
        search: Search::Random,
        quick: 12000,
        thorough: 200000,
        rule: "Random directory trees and single files of valid schemas, some with a faulty schema, some with an option asking for help or the version; the files named on the output are compared with those that belong there. Every case is non-trivial. Distinct by arguments and files.",
        assumptions: &["File names with control characters are left out, since a line is read as one name."],
    },
    Prop {
        id: "C21",
        run: props_front::c21,
        search: Search::Guided,
        quick: 1000000,
        thorough: 20000000,
        rule: "Random valid schemas; the result of the type checker is compared with the one computed from the generated schema. Non-trivial: the export uses at least one declared type. Distinct by text.",
        assumptions: &["Valid schemas that expand to more than 1500 fields are left out."],
    },
    Prop {
        id: "C22",
        run: props_front::c22,
        search: Search::Random,
        quick: 12000,
        thorough: 300000,
        rule: "Two to five random schemas, related ones and faulty ones among them, compiled one at a time and then at the same time, six times each on a thread of its own; the outcomes are compared. Non-trivial: two of the schemas differ. Distinct by texts.",
        assumptions: &["How the threads interleave is up to the machine, so a fault in this respect may take several runs to show."],
    },
    Prop {
        id: "C23",
        run: props_cli::c23,
        search: Search::Random,
        quick: 3000,
        thorough: 60000,
        rule: "Two to five runs of the program started at the same time, twice over, on directories and single files of their own, into the same output directory or neighbouring ones, most of which do not exist yet; some with a faulty schema. Each output is compared with the code for its schema, and the directory with what belongs there. Every case is non-trivial. Distinct by arguments and files.",
        assumptions: &["How the processes interleave is up to the machine.", "No two runs write the same file."],
    },
    Prop {
        id: "C24",
        run: props_cli::c24,
        search: Search::Random,
        quick: 6000,
        thorough: 150000,
        rule: "Random directory trees and single files, some with a faulty schema, run twice: as usual, and with other environment variables (some named by words of the source) or none, with something on the standard input, and with other files in the working directory; exit status, output and files compared. Non-trivial: something around the run differs. Distinct by all of it.",
        assumptions: &["Variables read by the dynamic loader and the C library are left as they are.", "What is on the standard error is not compared."],
    },
];

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or_else(|| d.to_string())
}

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn known(verif: &str, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .map(|l| l.split(" -- ").next().unwrap().trim().to_string())
        .filter(|l| l.starts_with(&format!("{} ", id)))
        .collect()
}

fn real_main() -> Result<i32, String> {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        return Err("usage: vp check <id> | vp replay <file>".into());
    }
    let verif = env("VP_DIR", "/verif");
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let seed: u64 = {
        let t = env("VERIF_SEED", "1");
        t.parse::<i64>().map(|x| x as u64).unwrap_or_else(|_| hash(t.as_bytes()) >> 12)
    };
    let scratch = Scratch(format!("{}/vp-{}", std::env::temp_dir().display(), std::process::id()));
    std::fs::create_dir_all(&scratch.0).map_err(|e| e.to_string())?;
    let cmd = args[1].as_str();
    let mut tape = None;
    let id = if cmd == "replay" {
        let j = json::parse(&std::fs::read_to_string(&args[2]).map_err(|e| e.to_string())?)?;
        let d = j.get("dictionary");
        let list = |k: &str| d.get(k).arr().iter().filter_map(|x| x.str().map(|t| t.to_string())).collect::<Vec<_>>();
        dict::set(dict::Dict {
            words: list("words"),
            numbers: d.get("numbers").arr().iter().filter_map(|x| x.num()).map(|x| x as u64).collect(),
            chars: list("chars").iter().flat_map(|t| t.chars()).collect(),
        });
        tape = Some(j.get("tape").arr().iter().map(|x| x.num().unwrap_or(0.0) as u64).collect::<Vec<u64>>());
        j.get("property").str().ok_or("the file names no property")?.to_string()
    } else {
        args[2].clone()
    };
    let p = prop(&id);
    let cfg = Cfg {
        sut_bin: env("VP_SUT", &format!("{}/target/debug/sut", verif)),
        cli_bin: env("VP_CLI", &format!("{}/target/cli/debug/packetc", verif)),
        thorough,
        scratch: scratch.0.clone(),
        known: known(&verif, &id),
        verif: verif.clone(),
    };
    if let Some(t) = tape {
        let mut ctx = Ctx::new(&cfg, 0)?;
        let mut case = Case::new();
        let v = (p.run)(&mut ctx, &mut Src::replay(t), &mut case)?;
        for (k, v) in &case.input {
            println!("{}: {}", k, v.str().map(|x| x.to_string()).unwrap_or_else(|| v.text()));
        }
        return Ok(match v {
            Verdict::Fail(m) => {
                println!("fails: {}", m);
                1
            }
            Verdict::Pass => {
                println!("passes");
                0
            }
            Verdict::Discard => {
                println!("discarded");
                0
            }
        });
    }
    dict::load(&env("VP_REPO", "/repo"));
    let t0 = Instant::now();
    let scale: f64 = env("VP_SCALE", "1").parse().unwrap_or(1.0);
    let cases = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as usize;
    let mut fails: Option<(String, J)> = None;
    // recorded defects first: they are reported, anything like them that is not recorded is a violation
    let mut findings = Vec::new();
    {
        let mut ctx = Ctx::new(&cfg, 0)?;
        for (sig, what) in props_wire::probes(&mut ctx, &id)? {
            if cfg.known.contains(&sig) {
                println!("KNOWN-FINDING: property={} {}", id, what);
                findings.push(s(sig));
            } else {
                fails = Some((format!("{} ({})", what, sig), J::Null));
            }
        }
    }
    let mut stats = Stats::default();
    let mut shrunk = None;
    if fails.is_none() {
        let r = engine::run(p, &cfg, seed, cases)?;
        stats = r.stats;
        shrunk = r.failure;
    }
    let wall = t0.elapsed().as_secs_f64();
    let violated = fails.is_some() || shrunk.is_some();
    let mut cov = vec![
        ("evaluations", n(stats.evaluations)),
        ("distinct_nontrivial", n(stats.distinct.len() as u64)),
        ("rule", s(p.rule)),
        ("samples", J::Arr(stats.samples.clone())),
        ("nontrivial", n(stats.nontrivial)),
        ("discarded", n(stats.discards)),
        ("individual_checks", n(stats.inner)),
        ("compiler_features_reached", n(stats.features.len() as u64)),
        ("inputs_kept_as_new", n(stats.corpus)),
        ("probes", n(stats.probes)),
        ("distribution", J::Obj(stats.labels.iter().map(|(k, v)| (k.to_string(), n(*v))).collect())),
    ];
    if !findings.is_empty() {
        cov.push(("known_findings_seen", J::Arr(findings)));
    }
    let ev = obj(vec![
        ("property", s(id.clone())),
        ("tier", s(if thorough { "thorough" } else { "quick" })),
        ("seed", J::Num(seed as i64 as f64)),
        ("level", s("exploration")),
        ("coverage", obj(cov)),
        ("assumptions", J::Arr(p.assumptions.iter().map(|x| s(*x)).collect())),
        ("wall_s", J::Num((wall * 1000.0).round() / 1000.0)),
        ("violations", n(violated as u64)),
    ]);
    let dir = format!("{}/evidence", verif);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(format!("{}/{}.json", dir, id), ev.pretty()).map_err(|e| e.to_string())?;
    if violated {
        let dir = format!("{}/replays", verif);
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = format!("{}/{}.json", dir, id);
        let (msg, body) = match (fails, shrunk) {
            (Some((m, j)), _) => (m.clone(), obj(vec![("property", s(id.clone())), ("fails", s(m)), ("input", j)])),
            (_, Some(f)) => (
                f.msg.clone(),
                obj(vec![
                    ("property", s(id.clone())),
                    ("fails", s(f.msg)),
                    ("input", J::Obj(f.input.into_iter().map(|(k, v)| (k.to_string(), v)).collect())),
                    ("seed", J::Num(seed as i64 as f64)),
                    ("shrink_steps", n(f.shrink_steps as u64)),
                    ("dictionary", {
                        let d = dict::get();
                        obj(vec![
                            ("words", J::Arr(d.words.iter().map(|x| s(x.clone())).collect())),
                            ("numbers", J::Arr(d.numbers.iter().map(|x| n(*x)).collect())),
                            ("chars", J::Arr(d.chars.iter().map(|x| s(x.to_string())).collect())),
                        ])
                    }),
                    ("tape", J::Arr(f.tape.into_iter().map(n).collect())),
                ]),
            ),
            _ => unreachable!(),
        };
        std::fs::write(&path, body.pretty()).map_err(|e| e.to_string())?;
        println!("{}", msg);
        println!("VIOLATION property={} replay={}", id, path);
        return Ok(1);
    }
    println!(
        "{} held: {} cases, {} distinct non-trivial, {} discarded, {} individual checks, {:.1} s",
        id,
        stats.evaluations,
        stats.distinct.len(),
        stats.discards,
        stats.inner,
        wall
    );
    Ok(0)
}

fn main() {
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(real_main).unwrap().join();
    std::process::exit(match r {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => {
            eprintln!("error: {}", e);
            2
        }
        Err(_) => {
            eprintln!("error: the harness failed");
            3
        }
    });
}
