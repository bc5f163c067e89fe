//! Requests for a configuration: everything it declares, and everything near.

use crate::cfg::*;
use crate::tape::Rng;
use crate::types;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub path: Vec<u8>,
    pub method: Vec<u8>,
}

impl Req {
    pub fn show(&self) -> String {
        format!("{} {}", esc(&self.method), esc(&self.path))
    }
}

pub fn esc(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{:?}", s),
        Err(_) => format!("b\"{}\"", b.iter().map(|b| std::ascii::escape_default(*b).to_string()).collect::<String>()),
    }
}

fn below(r: &mut Rng, n: usize) -> usize {
    (r.next() % n.max(1) as u64) as usize
}

/// Text for each segment of a declared path
pub fn instantiate(path: &[&Seg], r: &mut Rng) -> Vec<String> {
    path.iter()
        .map(|s| match s {
            Seg::Static(s) => s.clone(),
            Seg::Param(p) => types::valid_text(&p.typ, r),
        })
        .collect()
}

pub fn join(segs: &[String]) -> Vec<u8> {
    let mut s = String::new();
    for x in segs {
        s.push('/');
        s.push_str(x);
    }
    if s.is_empty() {
        s.push('/');
    }
    s.into_bytes()
}

pub const OTHER_METHODS: &[&[u8]] = &[
    b"HEAD", b"OPTIONS", b"PATCH", b"CONNECT", b"TRACE", b"get", b"Get", b"post", b"put", b"delete", b"GE", b"GETX", b"POS", b"POSTS", b"PUTT",
    b"PU", b"DELET", b"DELETED", b"", b" ", b"GET ", b" GET", b"G", b"\xff", b"GET\0", b"GET\n", b"*", b"XGET", b"PROPFIND",
];

pub fn method(n: &Node, r: &mut Rng) -> Vec<u8> {
    match r.next() % 10 {
        0 => OTHER_METHODS[below(r, OTHER_METHODS.len())].to_vec(),
        1 | 2 => METHODS[below(r, 4)].name().as_bytes().to_vec(),
        _ => {
            if n.res.is_empty() {
                METHODS[below(r, 4)].name().as_bytes().to_vec()
            } else {
                n.res[below(r, n.res.len())].method.name().as_bytes().to_vec()
            }
        }
    }
}

/// Change a segment a little
fn mutate_text(s: &str, vocabulary: &[String], r: &mut Rng) -> String {
    let cs: Vec<char> = s.chars().collect();
    let letters: Vec<char> = "abzAZ019_-.% éèö{}\"\\".chars().collect();
    match r.next() % 9 {
        0 if !cs.is_empty() => cs[..cs.len() - 1].iter().collect(),
        1 if !cs.is_empty() => cs[1..].iter().collect(),
        2 => {
            let mut x = s.to_string();
            x.push(letters[below(r, letters.len())]);
            x
        }
        3 => format!("{}{}", letters[below(r, letters.len())], s),
        4 if !cs.is_empty() => {
            let mut cs = cs;
            let i = below(r, cs.len());
            cs[i] = letters[below(r, letters.len())];
            cs.into_iter().collect()
        }
        5 if !cs.is_empty() => {
            let mut cs = cs;
            let i = below(r, cs.len());
            cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
            cs.into_iter().collect()
        }
        6 if !cs.is_empty() => {
            let i = below(r, cs.len());
            cs[..i].iter().collect()
        }
        7 if !vocabulary.is_empty() => vocabulary[below(r, vocabulary.len())].clone(),
        8 if !vocabulary.is_empty() => format!("{}{}", s, vocabulary[below(r, vocabulary.len())]),
        _ => String::new(),
    }
}

/// About `n` requests; every declared resource is asked for at least once
/// if `n` allows.
pub fn generate(c: &Cfg, n: usize, r: &mut Rng) -> Vec<Req> {
    let mut out: Vec<Req> = vec![];
    let mut vocabulary: Vec<String> = vec![];
    let mut nodes: Vec<(Vec<&Seg>, &Node)> = vec![];
    c.root.visit(&mut vec![], &mut |p, node| {
        if let Some(Seg::Static(s)) = p.last() {
            if !vocabulary.contains(s) {
                vocabulary.push(s.clone());
            }
        }
        nodes.push((p.to_vec(), node));
    });

    // everything declared
    for (p, node) in &nodes {
        for res in &node.res {
            let segs = instantiate(p, r);
            out.push(Req { path: join(&segs), method: res.method.name().as_bytes().to_vec() });
        }
    }
    // too many: a random selection of them
    while out.len() > n {
        let i = below(r, out.len());
        out.swap_remove(i);
    }
    while out.len() < n {
        let (p, node) = &nodes[below(r, nodes.len())];
        let mut segs = instantiate(p, r);
        let mut path;
        match r.next() % 16 {
            // as declared, some method
            0 | 1 | 2 => path = join(&segs),
            // without the leading slash
            3 => {
                path = join(&segs);
                path.remove(0);
            }
            // with a trailing slash
            4 => {
                path = join(&segs);
                if path != b"/" || r.next() % 2 == 0 {
                    path.push(b'/');
                }
            }
            // some segment a bit different
            5 | 6 | 7 => {
                if segs.is_empty() {
                    segs.push(String::new());
                }
                let i = if r.next() % 2 == 0 { segs.len() - 1 } else { below(r, segs.len()) };
                segs[i] = mutate_text(&segs[i], &vocabulary, r);
                path = join(&segs);
                if r.next() % 4 == 0 {
                    path.push(b'/');
                }
            }
            // a parameter that does not parse
            8 | 9 => {
                let ps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Seg::Param(_))).collect();
                for i in &ps {
                    if r.next() as usize % ps.len() == 0 || r.next() % 3 == 0 {
                        if let Seg::Param(q) = p[*i] {
                            if let Some(t) = types::invalid_text(&q.typ, r) {
                                segs[*i] = t;
                            }
                        }
                    }
                }
                path = join(&segs);
            }
            // longer
            10 => {
                for _ in 0..1 + r.next() % 2 {
                    segs.push(if vocabulary.is_empty() || r.next() % 3 == 0 {
                        "7".to_string()
                    } else {
                        vocabulary[below(r, vocabulary.len())].clone()
                    });
                }
                path = join(&segs);
            }
            // shorter
            11 => {
                path = join(&segs);
                let l = below(r, path.len() + 1);
                path.truncate(l);
            }
            // slashes in strange places
            12 => {
                path = join(&segs);
                for _ in 0..1 + r.next() % 2 {
                    let i = if r.next() % 3 == 0 { path.len() } else { below(r, path.len() + 1) };
                    path.insert(i, b'/');
                }
            }
            // any bytes
            13 => {
                path = join(&segs);
                let i = below(r, path.len() + 1);
                match r.next() % 4 {
                    0 => path.insert(i, (r.next() % 256) as u8),
                    1 => path.insert(i, [0x80, 0xff, 0xc3, 0xe2, 0xf0, 0][below(r, 6)]),
                    2 => {
                        if i < path.len() {
                            path[i] = (r.next() % 256) as u8;
                        }
                    }
                    _ => path.extend_from_slice(&[b"?x=1".as_ref(), b"#frag", b"%20", b"\xff", b"..", b" "][below(r, 6)]),
                }
            }
            // anything made of known segments
            14 => {
                let k = below(r, 5);
                let segs: Vec<String> = (0..k)
                    .map(|_| {
                        if vocabulary.is_empty() || r.next() % 4 == 0 {
                            ["", "1", "x", "true", "é"][below(r, 5)].to_string()
                        } else {
                            vocabulary[below(r, vocabulary.len())].clone()
                        }
                    })
                    .collect();
                path = join(&segs);
            }
            // random bytes
            _ => {
                let k = below(r, 12);
                path = (0..k)
                    .map(|_| match r.next() % 4 {
                        0 => b'/',
                        1 => (r.next() % 256) as u8,
                        _ => b"abefnoprsuw01"[below(r, 13)],
                    })
                    .collect();
                if r.next() % 2 == 0 {
                    path.insert(0, b'/');
                }
            }
        }
        out.push(Req { path, method: method(node, r) });
    }
    out
}
