//! A corpus of requests with the core library's answers, for the programs that
//! call the bindings from other languages. `index.txt` has one request per line:
//! `id op answer arguments... # description`, items as `offset:length` into
//! `data.bin`, lists separated by commas, `-` for the empty list.
use crate::req::*;
use h_common::*;
use std::collections::HashMap;
use std::io::Write;

#[derive(Default)]
struct Data {
    f: Vec<u8>,
    at: HashMap<Vec<u8>, usize>,
}
impl Data {
    fn put(&mut self, b: &[u8]) -> String {
        let o = match self.at.get(b) {
            Some(o) => *o,
            None => {
                let o = self.f.len();
                self.f.extend_from_slice(b);
                self.at.insert(b.to_vec(), o);
                o
            }
        };
        format!("{o}:{}", b.len())
    }
    fn list(&mut self, v: &[Vec<u8>]) -> String {
        if v.is_empty() {
            return "-".into();
        }
        v.iter().map(|x| self.put(x)).collect::<Vec<_>>().join(",")
    }
}
fn words(v: &[u64]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

pub fn write(args: &Args) -> ! {
    let dir = args.extra.get("dir").expect("--dir").clone();
    let n: u64 = args.extra.get("cases").map(|x| x.parse().unwrap()).unwrap_or(240);
    let sizes = args.extra.get("sizes").map(|x| x == "1").unwrap_or(true);
    let core = rust_eth_kzg::DASContext::default();
    let mut rng = Rng::new(args.seed, "corpus/pool", 0);
    let pool = Pool::new(&core, &mut rng, 4);
    let mut d = Data::default();
    let mut out = String::new();
    for i in 0..n {
        let mut rng = Rng::new(args.seed, "corpus", i);
        let (what, q) = pool.request(&mut rng, i, sizes);
        let Some(a) = q.core(&core) else { continue };
        let ans = match &a {
            Ans::Com(c) => format!("com={}", d.put(c)),
            Ans::Data(c, p) => format!("data={},{}", d.put(c), d.put(p)),
            Ans::Valid => "valid".into(),
            Ans::Invalid => "invalid".into(),
            Ans::Error => "error".into(),
        };
        let rest = match &q {
            Req::Commit(b) | Req::Compute(b) => d.put(b),
            Req::Recover { idx, cells } => format!("{} {}", words(idx), d.list(cells)),
            Req::Verify { coms, idx, cells, proofs } => {
                format!("{} {} {} {}", d.list(coms), words(idx), d.list(cells), d.list(proofs))
            }
        };
        out.push_str(&format!("{i} {} {ans} {rest} # {what}\n", q.op()));
    }
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::File::create(format!("{dir}/data.bin")).unwrap().write_all(&d.f).unwrap();
    std::fs::File::create(format!("{dir}/index.txt")).unwrap().write_all(out.as_bytes()).unwrap();
    std::process::exit(0)
}
