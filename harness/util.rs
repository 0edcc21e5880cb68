// shared by the roots of the harness

const fn parse_block(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    let mut n = 0;
    while i < b.len() {
        n = n * 10 + (b[i] - b'0') as usize;
        i += 1;
    }
    n
}

pub const BLOCK_SIZE: usize = parse_block(env!("ND_VERIF_BLOCK"));

pub fn regex_find(p: &str, s: &[u8], segs: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let re = regex::bytes::Regex::new(p).unwrap();
    let mut v = Vec::new();
    for g in segs {
        v.extend(re.find_iter(&s[g.0..g.1]).filter(|m| m.end() > m.start()).map(|m| (g.0 + m.start(), g.0 + m.end())));
    }
    v
}

pub fn collect(dir: &str) -> Vec<(String, Vec<u8>)> {
    use std::io::Read as _;
    let mut v = Vec::new();
    for e in std::fs::read_dir(format!("{dir}/out")).unwrap() {
        let e = e.unwrap();
        let mut b = Vec::new();
        std::fs::File::open(e.path()).unwrap().read_to_end(&mut b).unwrap();
        v.push((e.file_name().to_string_lossy().to_string(), b));
        let _ = std::fs::remove_file(e.path());
    }
    v.sort();
    v
}

