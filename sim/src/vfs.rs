//! In-memory filesystem with volatile and durable state.
//!
//! Volatile state is what the running process sees. A process kill keeps it. A power
//! loss keeps only what was made durable: file data up to the last fsync of the file
//! (plus, by a seeded choice, any of the later states the kernel may have written
//! back) and directory changes up to the last journal commit (plus a seeded prefix
//! of the later ones, in order).
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub dir: bool,
}

#[derive(Clone, Debug)]
pub enum Meta {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
}

#[derive(Clone, Debug, Default)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub dnames: BTreeMap<String, usize>,
    pub journal: Vec<Meta>,
}

fn apply(names: &mut BTreeMap<String, usize>, m: &Meta) {
    match m {
        Meta::Link(p, i) => {
            names.insert(p.clone(), *i);
        }
        Meta::Unlink(p) => {
            names.remove(p);
        }
        Meta::Rename(a, b) => {
            if let Some(i) = names.remove(a) {
                names.insert(b.clone(), i);
            }
            let pre = format!("{}/", a);
            let moved: Vec<String> = names.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
            for k in moved {
                let i = names.remove(&k).unwrap();
                names.insert(format!("{}/{}", b, &k[pre.len()..]), i);
            }
        }
    }
}

pub fn norm(cwd: &str, path: &str) -> String {
    let full = if path.starts_with('/') {
        let cw = format!("{}/", cwd);
        if path == cwd {
            String::new()
        } else if let Some(r) = path.strip_prefix(&cw) {
            r.to_string()
        } else {
            path.to_string()
        }
    } else {
        path.to_string()
    };
    let abs = full.starts_with('/');
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    let j = out.join("/");
    if abs {
        format!("/{}", j)
    } else if j.is_empty() {
        ".".to_string()
    } else {
        j
    }
}

pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) => "/".to_string(),
        Some(i) => p[..i].to_string(),
        None => ".".to_string(),
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs::default();
        for d in [".", "/", "/tmp"] {
            v.mkdir_durable(d);
        }
        v
    }
    pub fn mkdir_durable(&mut self, d: &str) {
        let id = self.inodes.len();
        self.inodes.push(Inode { dir: true, ..Default::default() });
        self.names.insert(d.to_string(), id);
        self.dnames.insert(d.to_string(), id);
    }
    pub fn put_durable(&mut self, p: &str, data: &[u8]) {
        let mut dirs = vec![];
        let mut q = parent(p);
        while !self.names.contains_key(&q) {
            dirs.push(q.clone());
            q = parent(&q);
        }
        for d in dirs.iter().rev() {
            self.mkdir_durable(d);
        }
        let id = self.inodes.len();
        self.inodes.push(Inode { data: data.to_vec(), durable: data.to_vec(), dir: false });
        self.names.insert(p.to_string(), id);
        self.dnames.insert(p.to_string(), id);
    }
    pub fn get(&self, p: &str) -> Option<&Inode> {
        self.names.get(p).map(|i| &self.inodes[*i])
    }
    pub fn file(&self, p: &str) -> Option<Vec<u8>> {
        self.get(p).filter(|i| !i.dir).map(|i| i.data.clone())
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.get(p).map_or(false, |i| i.dir)
    }
    pub fn meta(&mut self, m: Meta) {
        apply(&mut self.names, &m);
        self.journal.push(m);
    }
    pub fn commit_journal(&mut self) {
        for m in std::mem::take(&mut self.journal) {
            apply(&mut self.dnames, &m);
        }
    }
    pub fn fsync(&mut self, ino: usize) {
        if !self.inodes[ino].dir {
            self.inodes[ino].durable = self.inodes[ino].data.clone();
        }
        self.commit_journal();
    }
    /// What is on the disk after a power loss; `pick(n)` returns a choice in 0..n.
    pub fn after_power_loss(&self, pick: &mut dyn FnMut(u64) -> u64) -> Vfs {
        let keep = pick(self.journal.len() as u64 + 1) as usize;
        let mut names = self.dnames.clone();
        for m in &self.journal[..keep] {
            apply(&mut names, m);
        }
        let mut inodes = self.inodes.clone();
        for ino in inodes.iter_mut() {
            if ino.dir || ino.data == ino.durable {
                continue;
            }
            let kept = match pick(4) {
                0 | 1 => ino.durable.clone(),
                2 => ino.data.clone(),
                _ => {
                    let k = pick(ino.data.len() as u64 + 1) as usize;
                    ino.data[..k].to_vec()
                }
            };
            ino.data = kept.clone();
            ino.durable = kept;
        }
        Vfs { inodes, names: names.clone(), dnames: names, journal: vec![] }
    }
    /// Image handed to the next process: everything visible (kill) is kept; what was not
    /// durable stays not durable.
    pub fn to_json(&self) -> Value {
        let enc = |d: &[u8]| -> String { d.iter().map(|b| *b as char).collect() };
        json!({
            "inodes": self.inodes.iter().map(|i| json!([enc(&i.data), enc(&i.durable), i.dir])).collect::<Vec<_>>(),
            "names": self.names, "dnames": self.dnames,
            "journal": self.journal.iter().map(|m| match m {
                Meta::Link(p, i) => json!(["l", p, i]),
                Meta::Unlink(p) => json!(["u", p]),
                Meta::Rename(a, b) => json!(["r", a, b]),
            }).collect::<Vec<_>>(),
        })
    }
    pub fn from_json(v: &Value) -> Vfs {
        let dec = |s: &Value| -> Vec<u8> { s.as_str().unwrap().chars().map(|c| c as u32 as u8).collect() };
        let names = |v: &Value| -> BTreeMap<String, usize> {
            v.as_object().unwrap().iter().map(|(k, i)| (k.clone(), i.as_u64().unwrap() as usize)).collect()
        };
        Vfs {
            inodes: v["inodes"].as_array().unwrap().iter().map(|i| Inode {
                data: dec(&i[0]), durable: dec(&i[1]), dir: i[2].as_bool().unwrap() }).collect(),
            names: names(&v["names"]),
            dnames: names(&v["dnames"]),
            journal: v["journal"].as_array().unwrap().iter().map(|m| {
                let s = |i: usize| m[i].as_str().unwrap().to_string();
                match m[0].as_str().unwrap() {
                    "l" => Meta::Link(s(1), m[2].as_u64().unwrap() as usize),
                    "u" => Meta::Unlink(s(1)),
                    _ => Meta::Rename(s(1), s(2)),
                }
            }).collect(),
        }
    }
}
