// P39: calls flatdata::generate (see checks/P39.py); one case per line:
// directory <TAB> log of the generator <TAB> generator or "-" <TAB> schemas <TAB> out directory
use std::io::BufRead;

fn main() {
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        std::env::set_current_dir(p[0]).unwrap();
        std::env::set_var("STUB_LOG", p[1]);
        if p[2] == "-" { std::env::remove_var("FLATDATA_GENERATOR_BIN"); } else { std::env::set_var("FLATDATA_GENERATOR_BIN", p[2]); }
        if p[5] == "-" { std::env::remove_var("FLATDATA_GENERATOR_PATH"); } else { std::env::set_var("FLATDATA_GENERATOR_PATH", p[5]); }
        if p[6] != "-" { std::env::set_var("PATH", p[6]); }
        let r = std::panic::catch_unwind(|| match flatdata::generate(p[3], p[4]) {
            Ok(()) => "ok".to_string(),
            Err(flatdata::GeneratorError::PythonError(e)) => format!("python {:?}", e),
            Err(flatdata::GeneratorError::Io(e)) => format!("io {:?}", e),
            Err(e) => {
                let text = e.to_string();
                match e {
                    flatdata::GeneratorError::Failure { schema, destination, error } => format!("failure {}\t{}\t{:?}\t{:?}", schema.display(), destination.display(), error, text),
                    _ => unreachable!(),
                }
            }
        });
        println!("\nRESULT\t{}", r.unwrap_or_else(|_| "panics".to_string()));
    }
}
