//! Numeric literals of the code under test, as hints for the generators: a threshold or magic
//! number in the code is a value worth generating (and its neighbours). They only bias what is
//! generated; no verdict depends on them.

use std::sync::OnceLock;

pub struct Mined {
    pub floats: Vec<f64>,
    pub ints: Vec<i64>,
}

static MINED: OnceLock<Mined> = OnceLock::new();

pub fn mined() -> &'static Mined {
    MINED.get_or_init(|| {
        let root = std::env::var("FINCHECK_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(std::path::Path::new(&root).join("src").as_path(), &mut files);
        files.sort();
        let (mut floats, mut ints) = (vec![], vec![]);
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else {
                continue;
            };
            let text = match text.find("#[cfg(test)]") {
                Some(p) => &text[..p],
                None => &text[..],
            };
            scan(text, &mut floats, &mut ints);
        }
        floats.sort_by(f64::total_cmp);
        floats.dedup();
        ints.sort();
        ints.dedup();
        if floats.is_empty() {
            floats.push(1.0);
        }
        if ints.is_empty() {
            ints.push(1);
        }
        Mined { floats, ints }
    })
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else {
        return;
    };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn scan(text: &str, floats: &mut Vec<f64>, ints: &mut Vec<i64>) {
    // drop comments, then read numbers that do not continue an identifier
    let mut clean = String::with_capacity(text.len());
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else {
            clean.push(b[i]);
            i += 1;
        }
    }
    let b: Vec<char> = clean.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut t = String::new();
            let mut is_float = false;
            while i < b.len() {
                let d = b[i];
                if d.is_ascii_digit() {
                    t.push(d);
                } else if d == '_' {
                } else if d == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() && !is_float {
                    t.push(d);
                    is_float = true;
                } else if (d == 'e' || d == 'E')
                    && i + 1 < b.len()
                    && (b[i + 1].is_ascii_digit()
                        || ((b[i + 1] == '-' || b[i + 1] == '+')
                            && i + 2 < b.len()
                            && b[i + 2].is_ascii_digit()))
                {
                    t.push(d);
                    t.push(b[i + 1]);
                    i += 1;
                    is_float = true;
                } else {
                    break;
                }
                i += 1;
            }
            if let Ok(v) = t.parse::<f64>() {
                floats.push(v);
            }
            if !is_float {
                if let Ok(v) = t.parse::<i64>() {
                    ints.push(v);
                }
            }
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}
