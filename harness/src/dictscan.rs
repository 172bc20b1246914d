//! Reads the literals of the code under test.
#[derive(Default)]
pub struct Dict {
    pub strings: Vec<String>,
    pub numbers: Vec<u128>,
}

pub fn read() -> Dict {
    let mut d = Dict::default();
    let mut files = vec![];
    collect(std::path::Path::new("/repo/src"), &mut files);
    files.sort();
    for f in files {
        if let Ok(s) = std::fs::read_to_string(&f) {
            let end = s.find("#[cfg(test)]").unwrap_or(s.len());
            scan(&s[..end], &mut d);
        }
    }
    d.strings.sort();
    d.strings.dedup();
    d.numbers.sort();
    d.numbers.dedup();
    if d.strings.is_empty() {
        d.strings.push("name".into());
    }
    if d.numbers.is_empty() {
        d.numbers.push(64);
    }
    d
}

fn collect(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}

/// A rough reading is enough: comments are skipped, string, character and number literals taken.
fn scan(s: &str, d: &mut Dict) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2;
        } else if at(i) == '"' {
            let mut lit = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    lit.push(match at(i) {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        x => x,
                    });
                } else {
                    lit.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if lit.len() <= 40 && !lit.is_empty() {
                d.strings.push(lit)
            }
        } else if at(i) == '\'' && at(i + 2) == '\'' && at(i + 1) != '\\' {
            d.strings.push(at(i + 1).to_string());
            i += 3;
        } else if at(i) == '\'' && at(i + 1) == '\\' && at(i + 3) == '\'' {
            i += 4;
        } else if at(i).is_ascii_digit() {
            let mut lit = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                lit.push(at(i));
                i += 1
            }
            let l: String = lit.replace('_', "");
            let n = if let Some(h) = l.strip_prefix("0x") {
                u128::from_str_radix(h.trim_end_matches(|x: char| !x.is_ascii_hexdigit()), 16).ok()
            } else {
                let digits: String = l.chars().take_while(|x| x.is_ascii_digit()).collect();
                digits.parse().ok()
            };
            if let Some(n) = n.filter(|n| *n > 2) {
                d.numbers.push(n)
            }
        } else if at(i).is_alphanumeric() || at(i) == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1
            }
        } else {
            i += 1
        }
    }
}

