//! Command line of the workload binaries.
#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    /// Workload multiplier in percent (Miri and sanitizer runs use less).
    pub scale: u64,
    pub out: Option<String>,
    pub repo: String,
    /// Cost monitors: problem sizes of this run.
    pub sizes: Vec<usize>,
    /// Replay: run only this (phase, case).
    pub only: Option<(String, u64)>,
    pub mode: String,
}

pub fn parse() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, thorough: false, shard: 0, shards: 1, scale: 100,
        out: None, repo: "/repo".into(), sizes: vec![], only: None, mode: "native".into() };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("argument value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--shard" => a.shard = v().parse().unwrap(),
            "--shards" => a.shards = v().parse().unwrap(),
            "--scale" => a.scale = v().parse().unwrap(),
            "--out" => a.out = Some(v()),
            "--repo" => a.repo = v(),
            "--sizes" => a.sizes = v().split(',').map(|x| x.parse().unwrap()).collect(),
            "--mode" => a.mode = v(),
            "--only" => {
                let s = v();
                let (p, c) = s.rsplit_once(':').unwrap();
                a.only = Some((p.to_string(), c.parse().unwrap()));
            }
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}
